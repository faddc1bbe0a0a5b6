"""C17: compressor trains.  All requests of a grid spanning every region of the charts, for 1-3 stages, single- and variable-speed, every pressure
control, power and pressure limits, side streams and interstage pressures, evaluated by the real train on a perfect gas; every answer is replayed
by an own forward calculation, every refusal is confronted with an own scan of all admissible speeds and control settings, every maximum rate is
tried out, and every history of requests on one train object is compared with fresh objects."""

import itertools
import math

import numpy as np

from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl as PC
from libecalc.common.fixed_speed_pressure_control import InterstagePressureControl
from libecalc.domain.process.compressor.core.train.compressor_train_common_shaft import CompressorTrainCommonShaft
from libecalc.domain.process.compressor.core.train.simplified_train.simplified_train import CompressorTrainSimplified
from libecalc.domain.process.compressor.core.train.stage import CompressorTrainStage
from libecalc.domain.process.compressor.core.train.train_evaluation_input import CompressorTrainEvaluationInput
from libecalc.domain.process.core.results.compressor import CompressorTrainCommonShaftFailureStatus as FS
from libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor import LegacyCompressor
from libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer import LegacyMixer
from libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter import LegacySplitter
from libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier import RateModifier
from libecalc.domain.process.value_objects.chart import ChartCurve
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.liquid_remover import LiquidRemover
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.shaft import SingleSpeedShaft, VariableSpeedShaft

from mc.core import Prune
from mc.gas import DRY, HEAVY, LIGHT, Gas, IdealGas, fractions, gas
from mc.reftrain import CHARTS, Stage, run_stage, run_train, speed_range

SERVICE = IdealGas()
P_TOL = 1.2e-3  # documented pressure tolerance of a solution is 0.1 %
P_IN = 20.0
_DATA = {}


def data(name, margin=0):
    if (name, margin) not in _DATA:
        _DATA[name, margin] = UserDefinedChartData(
            curves=[
                ChartCurve(speed_rpm=s, rate_actual_m3_hour=[p[0] for p in pts], polytropic_head_joule_per_kg=[p[1] for p in pts], efficiency_fraction=[p[2] for p in pts])
                for s, pts in CHARTS[name].items()
            ],
            control_margin=margin,
        )
    return _DATA[name, margin]


def stages_of(spec):
    return [Stage(*s) if isinstance(s, tuple) else Stage(s) for s in spec]


def real_stages(ref, shaft, streams_out=None, streams_in=None, interstage=None, margin=0):
    out = []
    for i, st in enumerate(ref):
        d = data(st.name, margin)
        n_out, n_in = (streams_out or {}).get(i, 0), (streams_in or {}).get(i, 0)
        out.append(
            CompressorTrainStage(
                compressor=LegacyCompressor(d, fluid_service=SERVICE, shaft=shaft),
                temperature_setter=TemperatureSetter(required_temperature_kelvin=st.T, fluid_service=SERVICE),
                liquid_remover=LiquidRemover(fluid_service=SERVICE),
                rate_modifier=RateModifier(compressor_chart=d, shaft=shaft),
                fluid_service=SERVICE,
                splitter=LegacySplitter(n_out + 1) if n_out else None,
                mixer=LegacyMixer(n_in + 1, fluid_service=SERVICE) if n_in else None,
                choke=Choke(pressure_change=st.dp, fluid_service=SERVICE) if st.dp else None,
                interstage_pressure_control=interstage[1] if interstage and interstage[0] == i else None,
            )
        )
    return out


def train_of(ref, control, fm=LIGHT, factor=1.0, const=0.0, max_power=None, max_pd=None, want_max=False, streams_out=None, streams_in=None, interstage=None, margin=0):
    variable = len(ref[0].chart.speeds) > 1
    shaft = VariableSpeedShaft() if variable else SingleSpeedShaft()
    return CompressorTrainCommonShaft(
        energy_usage_adjustment_constant=const,
        energy_usage_adjustment_factor=factor,
        stages=real_stages(ref, shaft, streams_out, streams_in, interstage, margin),
        fluid_service=SERVICE,
        shaft=shaft,
        pressure_control=control,
        calculate_max_rate=want_max,
        maximum_power=max_power,
        maximum_discharge_pressure=max_pd,
        stage_number_interstage_pressure=interstage[0] if interstage else None,
    )


def one(train, fm, rate, ps, pd, pi=None):
    """evaluate one period and give the scalars of the result"""
    n = 1
    rates = np.array([[r] for r in rate]) if isinstance(rate, (list, tuple)) else np.array([rate])
    train.set_evaluation_input(
        rate=rates, fluid_model=fm, suction_pressure=np.full(n, ps), discharge_pressure=np.full(n, pd), intermediate_pressure=None if pi is None else np.full(n, pi)
    )
    return Answer(train.evaluate())


class Answer:
    def __init__(self, r):
        self.raw = r
        e = r.get_energy_result()
        self.power, self.energy_usage, self.is_valid = list(e.power.values), list(e.energy_usage.values), list(e.is_valid)
        self.failure_status, self.stage_results, self.max_standard_rate = r.failure_status, r.stage_results, r.max_standard_rate
        self.inlet_stream_condition, self.outlet_stream_condition = r.inlet_stream, r.outlet_stream


def std(fm, m):
    return m / gas(fm).rho_std * 24


def mass(fm, r):
    return r * gas(fm).rho_std / 24


def close(a, b, rel=2e-3):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-9)


ASV = {PC.INDIVIDUAL_ASV_RATE, PC.INDIVIDUAL_ASV_PRESSURE, PC.COMMON_ASV}


def read(r, i=0):
    """plain numbers of period i"""
    out = []
    for s in r.stage_results:
        a, b = s.inlet_stream_condition, s.outlet_stream_condition
        out.append(
            dict(
                p1=a.pressure[i], T1=a.temperature_kelvin[i], q=a.actual_rate_before_asv_m3_per_hr[i], q_asv=a.actual_rate_m3_per_hr[i],
                m=s.mass_rate_before_asv_kg_per_hr[i], m_asv=s.mass_rate_kg_per_hr[i], head=s.polytropic_head_kJ_per_kg[i] * 1000,
                eff=s.polytropic_efficiency[i], power=s.power[i], p2=b.pressure[i], T2=b.temperature_kelvin[i], speed=s.speed[i], valid=s.is_valid[i],
            )
        )  # fmt: skip
    return out


def replay(t, ref, fm, stages, ps, m_in, control, what, gains=None, comps=None, interstage=None, speed=None):
    """every stage of a reported solution must follow from the previous one by the laws of the machine"""
    p, m = ps, m_in
    g = gas(fm)
    sp = stages[0]["speed"] if speed is None else speed
    lo, hi = speed_range(ref)
    t.check(lo * (1 - 1e-9) <= sp <= hi * (1 + 1e-9), lambda: f"{what}: speed {sp} outside the common range {lo}..{hi}")
    for i, (st, s) in enumerate(zip(ref, stages)):
        w = f"{what}, stage {i + 1}"
        t.same(s["speed"], sp, f"{w}: speed", 1e-12)
        if gains and i in gains:
            m += gains[i]
        if comps and i in comps:
            g = comps[i]
        t.check(close(s["m"], m, 1e-5), lambda s=s, m=m, w=w: f"{w}: mass rate {s['m']}, {m} enters")
        t.check(close(s["T1"], st.T, 1e-9), lambda s=s, w=w, st=st: f"{w}: inlet temperature {s['T1']} instead of {st.T}")
        if i == 0 and control == PC.UPSTREAM_CHOKE or interstage and i == interstage[0] and interstage[1] == PC.UPSTREAM_CHOKE:
            t.check(s["p1"] <= (p - st.dp) * (1 + P_TOL), lambda s=s, w=w, p=p, st=st: f"{w}: choked inlet pressure {s['p1']} above the available {p - st.dp}")
        elif interstage and i == interstage[0]:
            t.check(close(s["p1"], interstage[2] - st.dp, P_TOL), lambda s=s, w=w: f"{w}: inlet pressure {s['p1']}, interstage pressure {interstage[2]}")
        else:
            t.check(close(s["p1"], p - st.dp, 1e-9), lambda s=s, w=w, p=p, st=st: f"{w}: inlet pressure {s['p1']}, previous outlet {p} minus drop {st.dp}")
        x = run_stage(st, g, s["p1"] + st.dp, m, sp, m_asv=s["m_asv"])
        t.check(close(s["q"], x.q, 1e-5) and close(s["q_asv"], x.q_asv, 1e-5), lambda s=s, x=x, w=w: f"{w}: volume flows {s['q']}, {s['q_asv']} do not belong to the state ({x.q}, {x.q_asv})")
        t.check(s["m_asv"] >= m * (1 - 1e-9), lambda s=s, w=w, m=m: f"{w}: less mass through the compressor ({s['m_asv']}) than enters ({m})")
        t.check(x.lo * (1 - 1e-6) <= x.q_asv <= x.hi * (1 + 1e-5), lambda x=x, w=w: f"{w}: flow {x.q_asv} outside the chart {x.lo}..{x.hi} at speed {sp}")
        if control not in ASV and not interstage:
            t.check(close(x.q_asv, max(x.q, x.lo), 1e-6), lambda x=x, w=w: f"{w}: recirculates to {x.q_asv}, needed {max(x.q, x.lo)}")
        t.check(close(s["head"], x.head, 1e-4) and close(s["eff"], x.eff, 1e-4), lambda s=s, x=x, w=w: f"{w}: head {s['head']} / efficiency {s['eff']}, the chart gives {x.head} / {x.eff} at flow {x.q_asv}, speed {sp}")
        t.check(close(s["p2"], x.p2, 1e-3) and close(s["T2"], x.T2, 1e-4), lambda s=s, x=x, w=w: f"{w}: outlet {s['p2']} bar {s['T2']} K, expected {x.p2} bar {x.T2} K")
        power = s["m_asv"] * s["head"] / s["eff"] / 3600 / 1e6
        t.check(close(s["power"], power, 1e-6), lambda s=s, w=w, power=power: f"{w}: power {s['power']}, mass flow x enthalpy rise is {power}")
        p = s["p2"]
    return p, sum(s["power"] for s in stages)


def speeds_grid(ref, n):
    lo, hi = speed_range(ref)
    return [lo] if lo == hi else [lo + (hi - lo) * i / n for i in range(n + 1)]


class World:
    """what the machine can do for one inlet state: the oracle for refusals"""

    def __init__(self, ref, fm, ps, m, n=24, **streams):
        self.ref, self.fm, self.ps, self.m = ref, fm, ps, m
        self.runs = [(s, run_train(ref, fm, ps, m, s, **streams)) for s in speeds_grid(ref, n)]
        self.valid = [(s, r) for s, r in self.runs if r is not None]

    def margin(self, r):
        """how far inside the capacity"""
        return min(1 - x.q_asv / x.hi for x in r)

    def by_speed(self, pd):
        """a speed that delivers exactly pd surely exists"""
        for (s0, a), (s1, b) in zip(self.runs, self.runs[1:]):
            if a and b and min(self.margin(a), self.margin(b)) > 1e-3 and min(a[-1].p2, b[-1].p2) < pd < max(a[-1].p2, b[-1].p2):
                return True
        return any(abs(r[-1].p2 / pd - 1) < 2e-4 and self.margin(r) > 1e-3 for _, r in self.valid)

    def controlled(self, pd, control, n=24):
        """the pressure control can surely bring the pressure down to pd at the lowest possible speed"""
        if not self.valid or self.runs[0][1] is None:  # the lowest possible speed lies between grid points: not decided here
            return False
        s, r = self.valid[0]
        if self.margin(r) < 1e-3 or pd > r[-1].p2 * (1 - 1e-3):
            return False
        if control == PC.DOWNSTREAM_CHOKE:
            return True

        def crossing(runs):
            for a, b in zip(runs, runs[1:]):
                if a and b and min(self.margin(a), self.margin(b)) > 1e-3 and min(a[-1].p2, b[-1].p2) * 1.0005 < pd < max(a[-1].p2, b[-1].p2) / 1.0005:
                    return True
            return False

        if control == PC.UPSTREAM_CHOKE:
            return crossing([run_train(self.ref, self.fm, self.ps * (1 - 0.8 * i / n), self.m, s) for i in range(n + 1)])
        if control == PC.INDIVIDUAL_ASV_RATE:
            return crossing([run_train(self.ref, self.fm, self.ps, self.m, s, fraction=0.99 * i / n) for i in range(n + 1)])
        if control == PC.COMMON_ASV:
            top = self.ref[0].chart.flow_range(s)[1] * gas(self.fm).rho(self.ps, self.ref[0].T)
            runs = []
            for i in range(n + 1):
                x = run_train(self.ref, self.fm, self.ps, self.m, s, extra=(top - self.m) * i / n)
                same = x and max(p.m_asv for p in x) <= min(p.m_asv for p in x) * (1 + 1e-6)
                if same and any(p.q_asv < p.lo * 1.001 for p in x):
                    same = False
                runs.append(x if same else None)
            return crossing(runs)
        if control == PC.INDIVIDUAL_ASV_PRESSURE:
            ratio = (pd / self.ps) ** (1 / len(self.ref))
            p = self.ps
            for st in self.ref:
                g = gas(self.fm)
                a = run_stage(st, g, p, self.m, s)
                b = run_stage(st, g, p, self.m, s, fraction=0.998)
                if st.dp or a is None or a.over > -1e-3 or not (b.p2 * 1.001 < p * ratio < a.p2 / 1.001):
                    return False
                p *= ratio
            return True
        return False


VARIABLE = {
    "A": ["A"],
    "A-B": ["A", "B"],
    "A-B-C": ["A", "B", "C"],
    "A-wide B": ["A", "wide B"],
    "A-small B": ["A", "small B"],
    "A-(drop)B cold": ["A", ("B", 293.15, 1.5)],
    "(drop)A-B": [("A", 308.15, 1.0), "B"],
}
SINGLE = {"A1": ["A1"], "A1-B1": ["A1", "B1"], "A1-wide B1": ["A1", "wide B1"], "A1-(drop)B1": ["A1", ("B1", 313.15, 2.0)], "A1-small B1": ["A1", "small B1"], "A1-B1-C1": ["A1", "B1", "C1"]}
TRAINS = {**VARIABLE, **SINGLE}
CONTROLS = [PC.DOWNSTREAM_CHOKE, PC.UPSTREAM_CHOKE, PC.INDIVIDUAL_ASV_RATE, PC.INDIVIDUAL_ASV_PRESSURE, PC.COMMON_ASV, None]
FLOWS = [0.0, 300.0, 2400.0, 3050.0, 4000.0, 5300.0, 6500.0, 7700.0, 8600.0]
MORE_FLOWS = sorted({*FLOWS, 1200.0, 2990.0, 3300.0, 3700.0, 4700.0, 5990.0, 6050.0, 7150.0, 7250.0, 8150.0, 8210.0})
UNMATCHED = {FS.NO_FAILURE}


def targets(ref, fm, ps, flows_m, n):
    """discharge pressures spanning everything from below the lowest to above the highest the machine can give"""
    tops = []
    for m in flows_m:
        for s in speed_range(ref):
            r = run_train(ref, fm, ps, m, s)
            if r:
                tops.append(r[-1].p2)
    lo, hi = min(tops), max(tops)
    a, b = lo * 0.55, hi * 1.08
    a = max(a, ps * 1.02)
    return [a * (b / a) ** (i / (n - 1)) for i in range(n)]


_TARGETS = {}


def run(ck):
    n_targets = ck.q(7, 15)
    flows = ck.q(FLOWS, MORE_FLOWS)
    ck.bounds.update(flows=flows, targets=n_targets, trains=list(TRAINS), controls=[str(c) for c in CONTROLS])
    ck.assumptions.append("perfect gas with constant heat capacity behind the FluidService interface")
    ck.assumptions.append("charts with falling curves whose efficiency is positive everywhere; pressure solutions are accepted within 0.1 %")

    def request(t, name, fm=LIGHT):
        ref = stages_of(TRAINS[name])
        q = t.pick("flow at suction [Am3/h]", flows)
        m = q * gas(fm).rho(P_IN, ref[0].T)
        key = (name, n_targets)
        if key not in _TARGETS:
            ms = [f * gas(fm).rho(P_IN, ref[0].T) for f in FLOWS[1:]]
            _TARGETS[key] = targets(ref, fm, P_IN, ms, n_targets)
        pd = t.pick("discharge pressure", _TARGETS[key])
        return ref, m, pd

    def verdict(t, ref, fm, m, ps, pd, control, r, what, max_power=None, max_pd=None):
        """judge one answer"""
        status = r.failure_status[0]
        stages = read(r)
        if m <= 0:
            t.check(status == FS.NO_FAILURE and r.power[0] == 0 and r.energy_usage[0] == 0, lambda: f"{what}: no flow, but power {r.power[0]} and status {status}")
            t.outcome("no flow")
            return
        t.state(status, stages[0]["speed"], r.power[0])
        if status == FS.NO_FAILURE:
            t.outcome(f"solved, {control}")
            t.check(all(s["valid"] for s in stages), f"{what}: a stage is outside its chart, but no failure is reported")
            p, power = replay(t, ref, fm, stages, ps, m, PC.UPSTREAM_CHOKE if max_pd else control, what)
            out = r.outlet_stream_condition.pressure[0]
            t.check(close(out, pd, P_TOL), lambda: f"{what}: delivers {out} bar instead of {pd}")
            if control == PC.DOWNSTREAM_CHOKE:
                t.check(p >= pd * (1 - P_TOL), lambda: f"{what}: last stage gives only {p} bar")
                if max_pd:
                    t.check(p <= max_pd * (1 + P_TOL), lambda: f"{what}: last stage gives {p} bar, at most {max_pd} allowed")
            else:
                t.check(close(p, pd, P_TOL), lambda: f"{what}: last stage gives {p} bar instead of {pd}")
            t.check(close(r.power[0], power, 1e-9), lambda: f"{what}: train power {r.power[0]}, stages sum to {power}")
            if max_power:
                t.check(power <= max_power * (1 + 1e-9), lambda: f"{what}: power {power} above the maximum {max_power}, not reported")
            # the control device is used at the lowest possible speed only
            if len(ref[0].chart.speeds) > 1 and control is not None and not max_pd:
                helped = control == PC.DOWNSTREAM_CHOKE and p > pd * (1 + 2 * P_TOL) or control == PC.UPSTREAM_CHOKE and stages[0]["p1"] + ref[0].dp < ps * (1 - 2 * P_TOL)
                if helped:
                    low = speed_range(ref)[0]
                    ok = stages[0]["speed"] <= low * (1 + 1e-6) or (run_train(ref, fm, ps, m, stages[0]["speed"] * (1 - 2e-3)) is None)
                    t.check(ok, lambda: f"{what}: throttles at speed {stages[0]['speed']} although the train can run slower")
            return
        t.outcome(f"{status.value}, {control}")
        w = World(ref, fm, ps, m)
        if status == FS.ABOVE_MAXIMUM_POWER:
            t.check(max_power is not None, f"{what}: no maximum power is set, but {status}")
            p, power = replay(t, ref, fm, stages, ps, m, PC.UPSTREAM_CHOKE if max_pd else control, what)
            t.check(power > max_power, lambda: f"{what}: power {power} reported as above the maximum {max_power}")
            return
        if max_pd is None:
            t.check(not w.by_speed(pd), lambda: f"{what}: {status.value}, but a speed exists that delivers {pd} bar")
            if control is not None:
                t.check(not w.controlled(pd, control), lambda: f"{what}: {status.value}, but {control} can deliver {pd} bar")
        if status == FS.ABOVE_MAXIMUM_FLOW_RATE:
            # choking the inlet expands the gas: that may be what drives a stage out of its chart
            fits = [r0 for _, r0 in w.valid if w.margin(r0) > 2e-3]
            if control not in (PC.UPSTREAM_CHOKE, PC.COMMON_ASV) and not max_pd:
                t.check(not fits or max(x[-1].p2 for x in fits) < pd * 1.001 or control in ASV, lambda: f"{what}: above maximum flow reported, but every stage fits at some speed")
        if status == FS.TARGET_DISCHARGE_PRESSURE_TOO_HIGH and w.valid and not max_pd:
            best = max(x[-1].p2 for _, x in w.valid)
            if control not in (PC.INDIVIDUAL_ASV_PRESSURE, PC.COMMON_ASV):
                t.check(best < pd * 1.002, lambda: f"{what}: target reported too high, but {best} bar can be reached")
        if status == FS.TARGET_DISCHARGE_PRESSURE_TOO_LOW and w.valid and not max_pd:
            low = min(x[-1].p2 for _, x in w.valid)
            t.check(low > pd * 0.998 or control in ASV, lambda: f"{what}: target reported too low, but the train can run down to {low} bar")
        t.check(status not in (FS.BELOW_MINIMUM_FLOW_RATE,), f"{what}: anti-surge recirculation is always available, but {status}")

    # ------------------------------------------------------------------ one request
    def requests(t):
        control = t.pick("pressure control", CONTROLS)
        name = t.pick("train", list(TRAINS))
        ref, m, pd = request(t, name)
        fm = LIGHT
        train = train_of(ref, control)
        r = one(train, fm, std(fm, m), P_IN, pd)
        t.step()
        verdict(t, ref, fm, m, P_IN, pd, control, r, f"{name}, {control}")

    ck.explore("requests", requests)

    # ------------------------------------------------------------------ limits and adjustments
    def limits(t):
        control = t.pick("pressure control", CONTROLS[:5])
        name = t.pick("train", ["A-B", "A1-B1", "A", "A1", "A-B-C"] if ck.quick else list(TRAINS))
        ref, m, pd = request(t, name)
        kind = t.pick("limit", ["power", "power, twice that", "discharge pressure", "factor", "constant"] if control == PC.DOWNSTREAM_CHOKE else ["power", "factor"])
        fm = HEAVY
        max_power = max_pd = None
        factor, const = 1.0, 0.0
        plain = one(train_of(ref, control), fm, std(fm, m), P_IN, pd)
        if kind.startswith("power"):
            if not plain.power[0] > 0:
                raise Prune
            max_power = plain.power[0] * t.pick("of the need", [0.9, 1.001, 1.1]) * (2 if "twice" in kind else 1)
        elif kind == "discharge pressure":
            max_pd = pd * t.pick("maximum/target", [1.0, 1.05, 1.3])
        elif kind == "factor":
            factor = 1.25
        else:
            const = 0.75
        train = train_of(ref, control, factor=factor, const=const, max_power=max_power, max_pd=max_pd)
        r = one(train, fm, std(fm, m), P_IN, pd)
        t.step(2)
        what = f"{name}, {control}, {kind}"
        if kind in ("factor", "constant"):
            t.check(r.failure_status == plain.failure_status, f"{what}: adjusting the power changes the status from {plain.failure_status} to {r.failure_status}")
            p0 = plain.power[0]
            expect = p0 * factor + const if p0 > 0 else p0
            t.same(r.power[0], expect, f"{what}: adjusted power", 1e-9)
            t.same(r.energy_usage[0], expect, f"{what}: adjusted energy", 1e-9)
            t.outcome(kind)
            return
        if max_power is not None and plain.failure_status[0] == FS.NO_FAILURE:
            over = plain.power[0] > max_power
            t.check(
                r.failure_status[0] == (FS.ABOVE_MAXIMUM_POWER if over else FS.NO_FAILURE) and r.is_valid[0] == (not over),
                lambda: f"{what}: needs {plain.power[0]} MW of at most {max_power} MW, reported {r.failure_status[0]}, valid {r.is_valid[0]}",
            )
            t.check(r.power[0] == plain.power[0], lambda: f"{what}: the maximum power changes the need from {plain.power[0]} to {r.power[0]}")
        verdict(t, ref, fm, m, P_IN, pd, control, r, what, max_power=max_power, max_pd=max_pd)

    ck.explore("limits and adjustments", limits)

    # ------------------------------------------------------------------ maximum rate
    def maximum(t):
        control = t.pick("pressure control", CONTROLS)
        # without a control device only the exact rate works on a single speed train
        name = t.pick("train", list(TRAINS) if control is not None else list(VARIABLE))
        ref = stages_of(TRAINS[name])
        fm = t.pick("gas", ck.q([LIGHT], [LIGHT, DRY]))
        key = (name, n_targets)
        if key not in _TARGETS:
            _TARGETS[key] = targets(ref, LIGHT, P_IN, [f * gas(LIGHT).rho(P_IN, ref[0].T) for f in FLOWS[1:]], n_targets)
        pd = t.pick("discharge pressure", _TARGETS[key])
        ps = t.pick("suction pressure", ck.q([P_IN], [P_IN, P_IN * 1.1]))
        # equal pressure ratios over unequal stages: which rates work is not an interval; see KNOWN_FINDINGS.txt
        known = f"maximum-rate-asv-pressure:{name.replace(chr(32), chr(95))}" if control == PC.INDIVIDUAL_ASV_PRESSURE and len(ref) > 1 else None
        power = t.pick("maximum power", [None, 0.6, 0.95] if control is not None else [None])
        max_power = None
        what = f"maximum rate, {name}, {control}"

        def answer(**kw):
            train = train_of(ref, control, want_max=True, **kw)
            train.set_evaluation_input(rate=np.array([0.0]), fluid_model=fm, suction_pressure=np.array([ps]), discharge_pressure=np.array([pd]))
            return float(train.get_max_standard_rate(np.array([ps]), np.array([pd]))[0])

        best = answer()
        if power is not None:
            if not best > 0:
                raise Prune
            need = one(train_of(ref, control), fm, best, ps, pd).power[0]
            if not need > 0:
                raise Prune
            max_power = power * need
            free, best = best, answer(max_power=max_power)
            t.check(best <= free * (1 + 2e-3), lambda: f"{what}: {best} with a maximum power, {free} without")
        t.step()
        t.state(round(best, 3))
        t.check(math.isfinite(best) and best >= 0, lambda: f"{what}: {best}")

        def works(r):
            a = one(train_of(ref, control, max_power=max_power), fm, r, ps, pd)
            return a.failure_status[0] == FS.NO_FAILURE and a.is_valid[0], a.failure_status[0]

        if best > 0:
            t.outcome(f"positive, {control}")
            ok, why = works(best * 0.998)
            t.check(ok, lambda: f"{what}: {best} is reported, but 0.998 of it fails: {why.value} (pd={pd}, ps={ps}, max power {max_power})", key=known if why == FS.TARGET_DISCHARGE_PRESSURE_TOO_HIGH else None)
            for f in (1.01, 1.05, 1.3):
                ok, _ = works(best * f)
                t.check(not ok, lambda: f"{what}: {best} is reported, but {f} times as much succeeds (pd={pd}, ps={ps}, max power {max_power})", key=known)
        else:
            t.outcome(f"zero, {control}")
            for q in flows[1:]:
                r = std(fm, q * gas(fm).rho(ps, ref[0].T))
                ok, _ = works(r)
                t.check(not ok, lambda: f"{what}: 0 is reported, but {r} Sm3/d ({q} Am3/h) succeeds (pd={pd}, ps={ps}, max power {max_power})", key=known)

    ck.explore("maximum rate", maximum)

    # ------------------------------------------------------------------ histories
    def request_list(name):
        ref = stages_of(TRAINS[name])
        rho = gas(LIGHT).rho(P_IN, ref[0].T)
        ts = targets(ref, LIGHT, P_IN, [f * rho for f in FLOWS[1:]], 7)
        return [(5300.0, P_IN, ts[3]), (0.0, P_IN, ts[3]), (2400.0, P_IN, ts[1]), (300.0, P_IN * 1.1, ts[2]), (8600.0, P_IN, ts[3]), (4000.0, P_IN * 0.9, ts[6]), (6500.0, P_IN, ts[0])]

    _single: dict = {}

    def numbers(r, i):
        return (r.failure_status[i], r.is_valid[i], r.power[i], r.energy_usage[i], r.outlet_stream_condition.pressure[i], r.max_standard_rate[i] if r.max_standard_rate is not None else None, [sorted(s.items()) for s in read(r, i)])

    def alone(control, name, request):
        key = (control, name, request)
        if key not in _single:
            q, ps, pd = request
            ref = stages_of(TRAINS[name])
            train = train_of(ref, control, want_max=True)
            _single[key] = numbers(one(train, LIGHT, std(LIGHT, q * gas(LIGHT).rho(P_IN, ref[0].T)), ps, pd), 0)
        return _single[key]

    def eq(a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
        if isinstance(a, list | tuple) and isinstance(b, list | tuple):
            return len(a) == len(b) and all(map(eq, a, b))
        return a == b

    def histories(t):
        control = t.pick("pressure control", CONTROLS[:5])
        name = t.pick("train", ck.q(["A-B", "A1-wide B1"], ["A-B", "A-B-C", "A1-wide B1", "A1-B1-C1", "(drop)A-B"]))
        options = request_list(name)
        mode = t.pick("mode", ["periods of one run", "runs one after the other", "maximum rate asked in between"])
        depth = ck.q(2, 3)
        seq = [t.pick(f"request {i + 1}", options) for i in range(depth)]
        ref = stages_of(TRAINS[name])
        train = train_of(ref, control, want_max=True)
        rho = gas(LIGHT).rho(P_IN, ref[0].T)
        what = f"{name}, {control}, {mode}"
        if mode == "periods of one run":
            train.set_evaluation_input(
                rate=np.array([std(LIGHT, q * rho) for q, _, _ in seq]), fluid_model=LIGHT, suction_pressure=np.array([ps for _, ps, _ in seq]), discharge_pressure=np.array([pd for _, _, pd in seq])
            )
            r = Answer(train.evaluate())
            got = [numbers(r, i) for i in range(depth)]
        else:
            got = []
            for q, ps, pd in seq:
                got.append(numbers(one(train, LIGHT, std(LIGHT, q * rho), ps, pd), 0))
                if "maximum" in mode:
                    best = float(train.get_max_standard_rate(np.array([ps]), np.array([pd]))[0])
                    ref_best = alone(control, name, (q, ps, pd))[5]
                    t.check(eq(best, float(ref_best)), lambda: f"{what}: maximum rate {best} after an evaluation, {ref_best} from a new train (request {q} Am3/h, {ps} -> {pd} bar)")
        t.step(depth)
        for i, (request, g) in enumerate(zip(seq, got)):
            expect = alone(control, name, request)
            t.state(request, g[0], g[2])
            t.check(eq(g, expect), lambda g=g, expect=expect, i=i: f"{what}: answer {i + 1} of {seq} differs from the answer of a new train: {g} / {expect}")
        t.outcome(mode)

    ck.explore("histories", histories)

    # ------------------------------------------------------------------ streams entering and leaving between stages
    STREAM_CONTROLS = [PC.DOWNSTREAM_CHOKE, PC.UPSTREAM_CHOKE, PC.INDIVIDUAL_ASV_RATE]

    def blend(parts):
        """gas constants of a mixture; parts: (Sm3/d, fluid model) - moles are proportional to standard volumes"""
        total = sum(r for r, _ in parts)
        x: dict = {}
        for r, fm in parts:
            for k, v in gas(fm).x.items():
                x[k] = x.get(k, 0.0) + v * r / total
        return Gas(x)

    def streams(t):
        control = t.pick("pressure control", STREAM_CONTROLS)
        name = t.pick("train", ck.q(["A-B", "A-(drop)B cold"], ["A-B", "A-B-C", "A-wide B", "A-small B", "A-(drop)B cold", "(drop)A-B"]))
        ref = stages_of(TRAINS[name])
        at = 1 if len(ref) == 2 else t.pick("ports at stage", [1, 2])
        out_share = t.pick("share leaving", [None, 0.0, 0.4, 0.9])
        in_share = t.pick("share entering", [None, 0.0, 0.3] if out_share is not None else [0.0, 0.3, 0.8])
        side = t.pick("fluid entering", [LIGHT, HEAVY]) if in_share else LIGHT
        q = t.pick("flow at suction [Am3/h]", ck.q([2400.0, 4700.0, 6500.0], FLOWS[1:]))
        m = q * gas(LIGHT).rho(P_IN, ref[0].T)
        main = std(LIGHT, m)
        gains = {at: -mass(LIGHT, main * (out_share or 0)) + mass(side, main * (in_share or 0))}
        comps = {at: blend([(main * (1 - (out_share or 0)), LIGHT), (main * (in_share or 0), side)])}
        key = (name, "streams", q, out_share, in_share, side == HEAVY, at)
        if key not in _TARGETS:
            tops = [r[-1].p2 for s in speed_range(ref) if (r := run_train(ref, LIGHT, P_IN, m, s, gains=gains, comps=comps))] or [P_IN * 2]
            lo, hi, n = min(tops) * 0.8, max(tops) * 1.05, ck.q(4, 7)
            _TARGETS[key] = [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]
        pd = t.pick("discharge pressure", _TARGETS[key])
        train = train_of(ref, control, streams_out={at: 1} if out_share is not None else None, streams_in={at: 1} if in_share is not None else None)
        rates, fluids = [main], [LIGHT]
        if out_share is not None:
            rates, fluids = rates + [main * out_share], fluids + [None]
        if in_share is not None:
            rates, fluids = rates + [main * in_share], fluids + [side]
        r = one(train, fluids, rates, P_IN, pd)
        t.step()
        status = r.failure_status[0]
        what = f"{name}, {control}, {out_share} leaves and {in_share} enters ahead of stage {at + 1}"
        t.state(status, r.power[0])
        t.outcome(f"{status.value}, {control}")
        if status == FS.NO_FAILURE:
            p, power = replay(t, ref, LIGHT, read(r), P_IN, m, control, what, gains=gains, comps=comps)
            t.check(close(r.outlet_stream_condition.pressure[0], pd, P_TOL), lambda: f"{what}: delivers {r.outlet_stream_condition.pressure[0]} bar instead of {pd}")
            t.check(p >= pd * (1 - P_TOL) if control == PC.DOWNSTREAM_CHOKE else close(p, pd, P_TOL), lambda: f"{what}: last stage gives {p} bar, {pd} requested")
            t.check(close(r.power[0], power, 1e-9), lambda: f"{what}: train power {r.power[0]}, stages sum to {power}")
            return
        w = World(ref, LIGHT, P_IN, m, gains=gains, comps=comps)
        t.check(not w.by_speed(pd), lambda: f"{what}: {status.value}, but a speed exists that delivers {pd} bar")
        if control == PC.DOWNSTREAM_CHOKE:
            t.check(not w.controlled(pd, control), lambda: f"{what}: {status.value}, but {control} can deliver {pd} bar")

    ck.explore("side streams", streams)

    # ------------------------------------------------------------------ a pressure requirement between the stages
    def interstage(t):
        up = t.pick("control of the first part", STREAM_CONTROLS)
        down = t.pick("control of the last part", STREAM_CONTROLS)
        name, at = t.pick("train, stage", ck.q([("A-B", 1), ("A-B-C", 2)], [("A-B", 1), ("A-B-C", 1), ("A-B-C", 2), ("A-small B", 1), ("A-(drop)B cold", 1)]))
        ref = stages_of(TRAINS[name])
        leaving = t.pick("share leaving", [None, 0.4])
        q = t.pick("flow at suction [Am3/h]", ck.q([2400.0, 4700.0, 6500.0], FLOWS[1:]))
        m = q * gas(LIGHT).rho(P_IN, ref[0].T)
        main = std(LIGHT, m)
        gains = {at: -mass(LIGHT, main * (leaving or 0))}
        first, last = ref[:at], ref[at:]
        lo, hi = speed_range(ref)
        n = ck.q(4, 6)

        def span(part, p, mm):
            tops = [r[-1].p2 for s in (lo, (lo + hi) / 2, hi) if (r := run_train(part, LIGHT, p, mm, s))] or [p * 1.5]
            a, b = min(tops) * 0.93, max(tops) * 1.04
            return [a * (b / a) ** (i / (n - 1)) for i in range(n)]

        pi = t.pick("interstage pressure", span(first, P_IN, m))
        m2 = m + gains[at]
        pd = t.pick("discharge pressure", span(last, pi, m2))
        train = train_of(ref, PC.DOWNSTREAM_CHOKE, streams_out={at: 1} if leaving is not None else None, interstage=(at, InterstagePressureControl(up, down)))
        rates, fluids = ([main, main * leaving], [LIGHT, None]) if leaving is not None else ([main], [LIGHT])
        r = one(train, fluids, rates, P_IN, pd, pi)
        t.step()
        status = r.failure_status[0]
        what = f"{name}, {pi} bar required ahead of stage {at + 1} ({up} / {down})"
        t.state(status, r.power[0])
        t.outcome(f"{status.value}, {up}, {down}")
        stages = read(r)
        if status == FS.NO_FAILURE:
            p1, w1 = replay(t, first, LIGHT, stages[:at], P_IN, m, up, what + ", first part", speed=stages[0]["speed"])
            t.check(p1 >= pi * (1 - P_TOL) if up == PC.DOWNSTREAM_CHOKE else close(p1, pi, P_TOL), lambda: f"{what}: the first part gives {p1} bar")
            p2, w2 = replay(t, last, LIGHT, stages[at:], pi, m2, down, what + ", last part", speed=stages[0]["speed"])
            t.check(p2 >= pd * (1 - P_TOL) if down == PC.DOWNSTREAM_CHOKE else close(p2, pd, P_TOL), lambda: f"{what}: the last part gives {p2} bar instead of {pd}")
            t.check(close(r.outlet_stream_condition.pressure[0], pd, P_TOL), lambda: f"{what}: delivers {r.outlet_stream_condition.pressure[0]} bar instead of {pd}")
            t.check(close(r.power[0], w1 + w2, 1e-9), lambda: f"{what}: train power {r.power[0]}, stages sum to {w1 + w2}")
            met = [close(p1, pi, 2 * P_TOL), close(p2, pd, 2 * P_TOL)]
            if up == down == PC.DOWNSTREAM_CHOKE:
                t.check(any(met) or stages[0]["speed"] <= lo * (1 + 1e-6) or run_train(first, LIGHT, P_IN, m, stages[0]["speed"] * 0.998) is None or run_train(last, LIGHT, pi, m2, stages[0]["speed"] * 0.998) is None,
                        lambda: f"{what}: both parts are throttled ({p1}, {p2}) at speed {stages[0]['speed']}")  # fmt: skip
            return
        if up == down == PC.DOWNSTREAM_CHOKE:
            grid = speeds_grid(ref, 24)
            a = [run_train(first, LIGHT, P_IN, m, s) for s in grid]
            b = [run_train(last, LIGHT, pi, m2, s) for s in grid]
            inside = [x and y and min(1 - z.q_asv / z.hi for z in x + y) > 1e-3 for x, y in zip(a, b)]
            if all(inside):
                fine = a[-1][-1].p2 > pi * 1.002 and b[-1][-1].p2 > pd * 1.002
                t.check(not fine, lambda: f"{what}: {status.value}, but full speed gives {a[-1][-1].p2} and {b[-1][-1].p2} bar and both can be choked to {pi}, {pd}")

    ck.explore("interstage pressure", interstage)

    # ------------------------------------------------------------------ the same trains from model files
    from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService

    from mc.e2e import csv, result

    COMP = {"LIGHT": LIGHT, "HEAVY": HEAVY}

    def yaml_chart(name, variable):
        curves = [{"SPEED": s, "RATE": [p[0] for p in pts], "HEAD": [p[1] / 1000 for p in pts], "EFFICIENCY": [p[2] * 100 for p in pts]} for s, pts in CHARTS[name].items()]
        d = {"NAME": f"chart {name}", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED" if variable else "SINGLE_SPEED", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "PERCENTAGE"}}
        if variable:
            return {**d, "CURVES": curves}
        return {**d, "CURVE": curves[0]}

    def yaml_fluid(name):
        c = fractions(COMP[name])
        return {"NAME": name, "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": "SRK", "COMPOSITION": {k: float(v) for k, v in c.items()}}

    def yaml_stage(st):
        d = {"INLET_TEMPERATURE": st.T - 273.15, "COMPRESSOR_CHART": f"chart {st.name}", "PRESSURE_DROP_AHEAD_OF_STAGE": st.dp, "CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "FRACTION"}
        return d

    def from_file(models, consumer, cols):
        doc = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": "genset", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
            "MODELS": models,
            "FUEL_TYPES": [{"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
            "START": "2020-01-01",
            "END": f"20{20 + len(next(iter(cols.values())))}-01-01",
            "INSTALLATIONS": [
                {"NAME": "i", "FUEL": "gas", "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "genset", "CONSUMERS": [{"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": consumer}]}]}
            ],
        }
        n = len(next(iter(cols.values())))
        ts = {"s.csv": csv(["DATE", *cols], [[f"01.01.20{20 + j}", *[repr(float(cols[k][j])) for k in cols]] for j in range(n)])}
        before = NeqSimFluidService._instance
        NeqSimFluidService._instance = SERVICE
        try:
            r = result(doc, ts, {"g.csv": csv(["POWER", "FUEL"], [[0, 0], [1000, 1000]])})
        finally:
            NeqSimFluidService._instance = before
        return {x.name: x for x in r.sub_components}["c"], r

    def files(t):
        name = t.pick("train", ck.q(["A-B", "(drop)A-B", "A1-(drop)B1"], list(TRAINS)))
        ref = stages_of(TRAINS[name])
        variable = len(ref[0].chart.speeds) > 1
        control = t.pick("pressure control", CONTROLS[:5])
        factor, const = t.pick("power adjustment", [(1.0, 0.0), (1.2, 0.5)])
        limited = t.flip("maximum power")
        fluid = t.pick("fluid", ["LIGHT", "HEAVY"]) if not limited else "LIGHT"
        margin, unit = t.pick("control margin", [(0, "FRACTION"), (0.1, "FRACTION"), (10, "PERCENTAGE")]) if factor == 1.0 and not limited else (0, "FRACTION")
        part = margin / 100 if unit == "PERCENTAGE" else margin
        fm = COMP[fluid]
        rho = gas(fm).rho(P_IN, ref[0].T)
        ts = targets(ref, fm, P_IN, [f * rho for f in FLOWS[1:]], 7)
        qs = [5300.0, 0.0, 2400.0, 8600.0, 6500.0]
        pds = [ts[3], ts[3], ts[2], ts[3], ts[4]]
        rates = [std(fm, q * rho) for q in qs]
        train = train_of(ref, control, fm=fm, factor=factor, const=const, margin=part)
        train.set_evaluation_input(rate=np.array(rates), fluid_model=fm, suction_pressure=np.full(5, P_IN), discharge_pressure=np.array(pds))
        direct = Answer(train.evaluate())
        max_power = None
        if limited:
            train = train_of(ref, control, fm=fm, factor=factor, const=const, max_power=6.0)
            max_power = 6.0
            train.set_evaluation_input(rate=np.array(rates), fluid_model=fm, suction_pressure=np.full(5, P_IN), discharge_pressure=np.array(pds))
            direct = Answer(train.evaluate())
        m = {
            "NAME": "train",
            "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN" if variable else "SINGLE_SPEED_COMPRESSOR_TRAIN",
            "FLUID_MODEL": fluid,
            "PRESSURE_CONTROL": control.value,
            "POWER_ADJUSTMENT_FACTOR": factor,
            "POWER_ADJUSTMENT_CONSTANT": const,
            "COMPRESSOR_TRAIN": {"STAGES": [{**yaml_stage(st), "CONTROL_MARGIN": margin, "CONTROL_MARGIN_UNIT": unit} for st in ref]},
        }
        if max_power:
            m["MAXIMUM_POWER"] = max_power
        models = [yaml_fluid(fluid), *[yaml_chart(n, variable) for n in {st.name for st in ref}], m]
        consumer = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "train", "RATE": "S;Q", "SUCTION_PRESSURE": P_IN, "DISCHARGE_PRESSURE": "S;P"}
        c, r = from_file(models, consumer, {"Q": rates, "P": pds})
        t.step()
        what = f"{name}, {control}"
        for i in range(5):
            t.same(c.energy_usage.values[i], float(direct.power[i]), f"{what}: power of the consumer in period {i + 1}", 1e-6)
            t.check(c.is_valid.values[i] == direct.is_valid[i], lambda i=i: f"{what}: valid {c.is_valid.values[i]} in period {i + 1}, the train says {direct.is_valid[i]}")
        x = r.models[0]
        for i in range(5):
            t.same(x.failure_status[i], direct.failure_status[i], f"{what}: failure status of period {i + 1}")
            for k, st in enumerate(x.stage_results):
                if qs[i] > 0:
                    t.same(st.mass_rate_kg_per_hr.values[i], float(direct.stage_results[k].mass_rate_kg_per_hr[i]), f"{what}: mass rate of stage {k + 1} in period {i + 1}", 1e-6)
                    t.same(st.speed.values[i], float(direct.stage_results[k].speed[i]), f"{what}: speed of stage {k + 1} in period {i + 1}", 1e-6)
        t.state([str(s) for s in direct.failure_status])
        t.outcome(control)

    ck.explore("trains from model files", files)

    def stream_files(t):
        """streams, rates and stages of a model file in every order of the list of streams"""
        names = ["A", "B", "C"]
        ref = stages_of(names)
        out_at = t.pick("stage with the leaving stream", [1, 2])
        in_at = t.pick("stage with the entering stream", [1, 2])
        fluid = t.pick("fluid entering", ["LIGHT", "HEAVY"])
        inter = t.pick("interstage pressure", [None, (2, PC.DOWNSTREAM_CHOKE, PC.UPSTREAM_CHOKE)])
        order = t.pick("order of the streams", list(itertools.permutations(range(3))))
        control = t.pick("pressure control", [PC.DOWNSTREAM_CHOKE, PC.INDIVIDUAL_ASV_RATE])
        rho = gas(LIGHT).rho(P_IN, ref[0].T)
        qs = [5300.0, 0.0, 6000.0]
        main = [std(LIGHT, q * rho) for q in qs]
        out, inn = [0.3 * x for x in main], [0.2 * x for x in main]
        pds = [95.0, 95.0, 120.0]
        pi = 50.0
        ports = [(1, out, None, i) for i in (out_at,)] + [(2, inn, COMP[fluid], in_at)]
        ports.sort(key=lambda p: (p[3], p[0]))
        rates = np.array([main] + [p[1] for p in ports])
        train = train_of(ref, control, streams_out={out_at: 1}, streams_in={in_at: 1}, interstage=(inter[0], InterstagePressureControl(inter[1], inter[2])) if inter else None)
        train.set_evaluation_input(
            rate=rates, fluid_model=[LIGHT] + [p[2] for p in ports], suction_pressure=np.full(3, P_IN), discharge_pressure=np.array(pds), intermediate_pressure=np.full(3, pi) if inter else None
        )
        direct = Answer(train.evaluate())
        listed = [
            ({"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "LIGHT"}, "S;MAIN"),
            ({"NAME": "leaving", "TYPE": "OUTGOING"}, "S;OUT"),
            ({"NAME": "entering", "TYPE": "INGOING", "FLUID_MODEL": fluid}, "S;IN"),
        ]
        listed = [listed[i] for i in order]
        stages = [yaml_stage(st) for st in ref]
        stages[0]["STREAM"] = ["main"]
        for i, n in ((out_at, "leaving"), (in_at, "entering")):
            stages[i].setdefault("STREAM", []).append(n)
        if inter:
            stages[inter[0]]["INTERSTAGE_CONTROL_PRESSURE"] = {"UPSTREAM_PRESSURE_CONTROL": inter[1].value, "DOWNSTREAM_PRESSURE_CONTROL": inter[2].value}
        m = {"NAME": "train", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "STREAMS": [x[0] for x in listed], "STAGES": stages, "PRESSURE_CONTROL": control.value}
        models = [*[yaml_fluid(n) for n in COMP], *[yaml_chart(n, True) for n in names], m]
        consumer = {
            "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "train", "RATE_PER_STREAM": [x[1] for x in listed],
            "SUCTION_PRESSURE": P_IN, "DISCHARGE_PRESSURE": "S;P",
        }  # fmt: skip
        if inter:
            consumer["INTERSTAGE_CONTROL_PRESSURE"] = pi
        c, r = from_file(models, consumer, {"MAIN": main, "OUT": out, "IN": inn, "P": pds})
        t.step()
        what = f"streams listed in the order {[x[0]['NAME'] for x in listed]}"
        for i in range(3):
            t.same(c.energy_usage.values[i], float(direct.power[i]), f"{what}: power in period {i + 1}", 1e-6)
            t.check(c.is_valid.values[i] == direct.is_valid[i], lambda i=i: f"{what}: valid {c.is_valid.values[i]} in period {i + 1}, the train says {direct.is_valid[i]}")
            if qs[i] > 0:
                rate = [main[i]] * 3
                for k in range(3):
                    rate[k] = main[i] - (out[i] if k >= out_at else 0) + (inn[i] if k >= in_at else 0)
                    st = r.models[0].stage_results[k]
                    got = st.inlet_stream_condition.standard_rate_before_asv_sm3_per_day if hasattr(st.inlet_stream_condition, "standard_rate_before_asv_sm3_per_day") else None
                    if got is not None:
                        t.same(got.values[i], rate[k], f"{what}: standard rate of stage {k + 1} in period {i + 1}", 1e-5)
        t.state([str(s) for s in direct.failure_status], [float(x) for x in direct.power])
        t.outcome([s.value for s in direct.failure_status])

    ck.explore("streams from model files", stream_files)
