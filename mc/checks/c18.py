"""C18: process pipelines.  Real sections of 1-3 compressors with coolers, pressure drops, chokes, recirculation loops, offtakes and injections are
assembled with the production assembly and solved for every request of a grid spanning the charts; every solution is put on a fresh system and
replayed by an own forward calculation, every refusal is confronted with an own scan of the documented scheme, every sequence of requests on one
object is compared with fresh objects, and the search primitives are run on every step function of a grid."""

import itertools
import math

from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
from libecalc.process.process_solver.boundary import Boundary
from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
from libecalc.process.process_solver.configuration import ChokeConfiguration, RecirculationConfiguration, SpeedConfiguration
from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
from libecalc.process.process_solver.float_constraint import FloatConstraint
from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver
from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver
from libecalc.process.process_solver.pipeline_section import Pipeline
from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
from libecalc.process.process_solver.search_strategies import Bisect, BisectResult, DidNotConvergeError
from libecalc.process.process_solver.section_assembly import assemble_process_section
from libecalc.process.process_solver.solver import (
    CompressorStonewallFailure,
    LiquidAtInletFailure,
    InsufficientInletPressureFailure,
    OfftakeExceedsInletFailure,
    TargetDirection,
    TargetPressureUnreachableFailure,
)
from libecalc.process.process_solver.solver_assembly import assemble_solver
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.compressor import Compressor
from libecalc.process.process_units.mixer import Mixer
from libecalc.process.process_units.pressure_dropper import PressureDropper
from libecalc.process.process_units.splitter import Splitter
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.shaft import VariableSpeedShaft

from mc.checks.c17 import data
from mc.core import Prune, Violation
from mc.gas import DRY, HEAVY, LIGHT, WET, IdealGas, gas
from mc.reftrain import CHARTS, chart

SERVICE = IdealGas()
T = 303.15
P_IN = 20.0
CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
REL, ABS = 1.5e-3, 1.5e-2  # pressures: documented tolerances are 1e-3 bar per calculation and 1e-5 on speed and rate
MARGIN = 6e-3  # a refusal is judged only this far inside


class St:
    """one compressor with what stands in front of it"""

    def __init__(self, name, T=T, dp=0.0, out=0.0, add=None):
        self.name, self.T, self.dp, self.out, self.add = name, T, dp, out, add
        self.chart = chart(name)


SECTIONS = {
    "A": [St("A")],
    "A, hot": [St("A", T=None)],
    "A, drop": [St("A", dp=2.0)],
    "A-B": [St("A"), St("B")],
    "A-B no cooler": [St("A"), St("B", T=None)],
    "A-B drop between": [St("A"), St("B", dp=1.5)],
    "A-wide B": [St("A"), St("wide B")],
    "A-small B": [St("A"), St("small B")],
    "A-B-C": [St("A", dp=0.5), St("B"), St("C", T=313.15, dp=0.5)],
    "A, offtake, B": [St("A"), St("B", out=0.2)],
    "A, injection, B": [St("A"), St("B", add=0.15)],
}


class System:
    """the real thing"""

    def __init__(self, spec, control, fm, rate_std, shaft=None, service=SERVICE):
        self.service = service
        self.shaft = shaft or VariableSpeedShaft()
        units, self.compressors = [], []
        for i, st in enumerate(spec):
            if st.out:
                units.append(Splitter(fluid_service=service, rate=st.out * rate_std))
            if st.add:
                m = Mixer(fluid_service=service)
                m.set_stream(service.create_stream_from_standard_rate(fm, 60.0, T, st.add * rate_std))
                units.append(m)
            if st.dp:
                units.append(PressureDropper(fluid_service=service, pressure_drop_bara=st.dp))
            if st.T:
                units.append(TemperatureSetter(fluid_service=service, required_temperature_kelvin=st.T))
            c = Compressor(compressor_chart=data(st.name), fluid_service=service)
            self.compressors.append(c)
            self.shaft.connect(c)
            units.append(c)
        self.units, self.control = units, control
        self.n = len(spec)

    def assemble(self):
        s = assemble_process_section(
            self.units, AntiSurgeType.COMMON_ASV if self.control == "COMMON_ASV" else AntiSurgeType.INDIVIDUAL_ASV, self.control, self.service
        )
        self.loops = [h for h in s.configuration_handlers if isinstance(h, RecirculationLoop)]
        self.choke = next((h for h in s.configuration_handlers if isinstance(h, ChokeConfigurationHandler)), None)
        self.system = assemble_solver(
            process_units=s.process_units,
            configuration_handlers=[self.shaft, *s.configuration_handlers],
            compressors=self.compressors,
            recirculation_loops=self.loops,
            shaft=self.shaft,
            pipeline_name="p",
            pressure_control_type=self.control,
            choke=next((u for u in s.process_units if isinstance(u, Choke)), None),
            choke_configuration_handler=self.choke,
        )
        self.handlers = [self.shaft, *self.loops, *([self.choke] if self.choke else [])]
        return self

    def settings(self, configuration):
        """(speed, recirculation per loop, choke drop) named by position, so that it can be moved to another object"""
        ids = [h.get_id() for h in self.handlers]
        return [(ids.index(c.configuration_handler_id), c.value) for c in configuration if c.configuration_handler_id in ids]

    def put(self, settings):
        from libecalc.process.process_solver.configuration import Configuration

        for i, v in settings:
            self.system.runner.apply_configuration(Configuration(configuration_handler_id=self.handlers[i].get_id(), value=v))


def stream(fm, rate, p=P_IN, temp=T):
    return SERVICE.create_stream_from_standard_rate(fm, p, temp, rate)


def call(t, fn, what, key):
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        t.check(False, f"{what}: {type(e).__name__}: {e}", key=f"{key} {type(e).__name__}")


def plain(settings):
    out = {}
    for i, v in settings:
        out.setdefault(i, []).append(
            (type(v).__name__, v.speed if isinstance(v, SpeedConfiguration) else v.delta_pressure if isinstance(v, ChokeConfiguration) else v.recirculation_rate)
        )
    return out


# ---------------------------------------------------------------------------------------------------------------- own forward calculation
class Run:
    __slots__ = ("ok", "p", "T", "stages", "short", "m")


def forward(spec, control, fm, rate_std, speed, recirc=None, dp=0.0, p=P_IN, temp=T, limit=None, slack=1e-5):
    """recirc: list of Sm3/d per loop, None = as little as the compressors need, ('fraction', f) or ('common', Sm3/d)"""
    g = gas(fm)
    r = Run()
    r.ok, r.stages, r.short = True, [], None
    to_mass = g.rho_std / 24
    m = rate_std * to_mass
    if control == "UPSTREAM_CHOKE":
        p -= dp
    common = control == "COMMON_ASV"
    if common:
        m += (recirc or 0.0) * to_mass
    for i, st in enumerate(spec[:limit] if limit else spec):
        if st.out:
            m -= st.out * rate_std * to_mass
        if st.add:
            a = st.add * rate_std * to_mass
            h = (m * temp + a * T) / (m + a) if m + a else temp  # one composition: the enthalpy is linear in temperature
            p, temp = min(p, 60.0), h
            m += a
        if p <= 0 or m < 0:
            r.ok, r.short = False, i
            return r
        p -= st.dp
        if p <= 0:
            r.ok, r.short = False, i
            return r
        if st.T:
            temp = st.T
        rho = g.rho(p, temp)
        lo, hi = st.chart.flow_range(speed)
        extra = 0.0
        if not common:
            if recirc is None:
                extra = max(0.0, lo * rho - m)
            elif isinstance(recirc, tuple):
                least, most = max(0.0, lo * rho - m), max(0.0, hi * rho - m)
                extra = least + recirc[1] * (most - least)
            else:
                extra = recirc[i] * to_mass
        q = (m + extra) / rho
        r.stages.append((p, temp, q, lo, hi, extra / to_mass, m / rho))
        if q < lo * (1 - slack) or q > hi * (1 + slack):
            r.ok = False
            return r
        head, eff = st.chart.at_speed(speed, min(max(q, lo), hi))
        p, temp = g.compress(p, temp, head, eff)
    if control == "DOWNSTREAM_CHOKE":
        p -= dp
    if common:
        m -= (recirc or 0.0) * to_mass
    r.p, r.T, r.m = p, temp, m
    return r


def least_common(spec, fm, rate, speed, p=P_IN, temp=T):
    """smallest and largest recirculation around the whole train that keep every compressor within its chart (None if there is none)"""
    go = lambda x: forward(spec, "COMMON_ASV", fm, rate, speed, x, p=p, temp=temp, slack=0.0)  # noqa: E731
    g = gas(fm)
    top = spec[0].chart.flow_range(speed)[1] * g.rho(p, spec[0].T or temp) / g.rho_std * 24
    xs = [top * i / 160 for i in range(161)]
    good = [x for x in xs if go(x).ok]
    return (min(good), max(good)) if good else None


def outlet_range(spec, control, fm, rate, speed, p=P_IN, temp=T):
    """highest outlet pressure at this speed with the anti-surge control doing its minimum, or None"""
    if control == "COMMON_ASV":
        lohi = least_common(spec, fm, rate, speed, p, temp)
        if lohi is None:
            return None
        return forward(spec, control, fm, rate, speed, lohi[0], p=p, temp=temp)
    r = forward(spec, control, fm, rate, speed, p=p, temp=temp, slack=1e-9)
    return r if r.ok else None


def shaft_range(spec):
    return max(min(s.chart.speeds) for s in spec), min(max(s.chart.speeds) for s in spec)


def _tight(r):
    """not within capacity when close to it"""
    r.ok = r.ok and all(s[2] <= s[4] * (1 - MARGIN) for s in r.stages)
    return r


def lowest_by_control(spec, control, fm, rate, speed, target, p=P_IN, temp=T):
    """can pressure control at this speed reach the target?  True / False / None (too close to say)"""
    up, down = target * (1 + MARGIN), target * (1 - MARGIN)
    base = outlet_range(spec, control, fm, rate, speed, p, temp)
    if base is None or base.p < up:
        return None
    if control == "DOWNSTREAM_CHOKE":
        return True
    if control == "UPSTREAM_CHOKE":
        pts = [_tight(forward(spec, control, fm, rate, speed, dp=p * i / 200, p=p, temp=temp)) for i in range(200)]
    elif control == "INDIVIDUAL_ASV_RATE":
        # the highest fraction is always within every stage's chart
        pts = [forward(spec, control, fm, rate, speed, ("fraction", i / 20), p=p, temp=temp) for i in range(21)]
    elif control == "COMMON_ASV":
        lohi = least_common(spec, fm, rate, speed, p, temp)
        pts = [forward(spec, control, fm, rate, speed, lohi[0] + (lohi[1] - lohi[0]) * i / 20, p=p, temp=temp) for i in range(21)]
    else:
        ratio = (target / p) ** (1 / len(spec))
        fixed = []
        for i in range(len(spec)):
            want = p * ratio ** (i + 1)
            ok = []
            for k in range(41):
                head = forward(spec, control, fm, rate, speed, [*fixed, 0.0], p=p, temp=temp, limit=i + 1, slack=1e9)
                _, _, _, lo, hi, _, q = head.stages[i]
                g = gas(fm)
                rho = g.rho(head.stages[i][0], head.stages[i][1])
                x = (max(0.0, lo - q) + (max(0.0, hi - q) - max(0.0, lo - q)) * k / 40) * rho / g.rho_std * 24
                r = forward(spec, control, fm, rate, speed, [*fixed, x], p=p, temp=temp, limit=i + 1)
                if r.ok:
                    ok.append((r.p, x))
            if not ok:
                return None
            ps = [a for a, _ in ok]
            if not (min(ps) * (1 + MARGIN) <= want <= max(ps) * (1 - MARGIN)):
                return None
            # refine
            a, b = next((u, v) for u, v in zip(ok, ok[1:]) if u[0] >= want >= v[0])
            xa, xb = a[1], b[1]
            for _ in range(50):
                xm = (xa + xb) / 2
                r = forward(spec, control, fm, rate, speed, [*fixed, xm], p=p, temp=temp, limit=i + 1)
                if r.p > want:
                    xa = xm
                else:
                    xb = xm
            fixed.append((xa + xb) / 2)
        return True
    run = []
    for r in pts:
        if not r.ok:
            break
        run.append(r.p)
    return True if run and min(run) <= down else None


def needed_speed(spec, control, fm, rate, target, p, shaft):
    """lowest speed that reaches the target (the lowest of the shaft when that is too much already)"""
    lo, hi = shaft
    for _ in range(40):
        mid = (lo + hi) / 2
        r = outlet_range(spec, control, fm, rate, mid, p)
        if r is None or r.p < target:
            lo = mid
        else:
            hi = mid
    return hi


def solvable(spec, control, fm, rate, target, p=P_IN, temp=T, cache=None, rng=None):
    """must the documented scheme (lowest speed reaching the target, then pressure control at the lowest speed) find a solution?"""
    lo, hi = rng or shaft_range(spec)
    speeds = [lo + (hi - lo) * i / 24 for i in range(25)]
    if cache is None:
        cache = {}
    if "curve" not in cache:
        cache["curve"] = [outlet_range(spec, control, fm, rate, v, p, temp) for v in speeds]
        # near the edge of capacity nothing is claimed
        cache["sure"] = [
            r is not None and all(s[2] <= s[4] * (1 - MARGIN) for s in r.stages) and (control != "COMMON_ASV" or _roomy(spec, fm, rate, v, p, temp))
            for r, v in zip(cache["curve"], speeds)
        ]
    curve, sure = cache["curve"], cache["sure"]
    k = len(speeds)
    while k > 0 and sure[k - 1]:
        k -= 1
    if k == len(speeds):
        return None  # not even the highest speed is surely within capacity
    run = [curve[i].p for i in range(k, len(speeds))]
    if run[0] * (1 + MARGIN) <= target <= run[-1] * (1 - MARGIN):
        return True
    if k == 0 and target * (1 + MARGIN) <= run[0]:
        return lowest_by_control(spec, control, fm, rate, lo, target, p, temp)
    return None


def _roomy(spec, fm, rate, v, p, temp):
    r = least_common(spec, fm, rate, v, p, temp)
    return r is not None and r[1] - r[0] > 0.05 * max(r[1], rate)


# ---------------------------------------------------------------------------------------------------------------- judging one answer
def judge(t, sys_, spec, control, fm, rate, target, sol, p=P_IN, temp=T, cache=None, tag=""):
    settings = sys_.settings(sol.configuration)
    t.check(len(settings) == len(sol.configuration), f"{tag}: the solution names settings of something else", key="foreign setting")
    vals = plain(settings)
    t.check(all(len(v) == 1 for v in vals.values()), f"{tag}: a setting is given twice: {vals}", key="setting twice")
    for i, ((kind, v),) in vals.items():
        t.check(math.isfinite(v) and v >= -1e-9, f"{tag}: impossible setting {kind} {v}", key="impossible setting")
        if i == 0:
            lo, hi = shaft_range(spec)
            t.check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9), f"{tag}: speed {v} outside {lo}-{hi}", key="speed outside")
    if sol.success:
        fresh = System(spec, control, fm, rate).assemble()
        fresh.put(settings)
        out = call(t, lambda: fresh.system.runner.run(stream(fm, rate, p, temp)), f"{tag}: the solution cannot be run on a fresh system", key="does not run")
        t.check(
            abs(out.pressure_bara - target) <= ABS + REL * target,
            f"{tag}: the settings give {out.pressure_bara:.5f} bara, requested {target:.5f}",
            key="target missed",
        )
        speed = vals[0][0][1]
        n = len(sys_.loops)
        rec = [vals.get(1 + i, [(None, 0.0)])[0][1] for i in range(n)]
        dp = vals.get(1 + n, [(None, 0.0)])[0][1] if sys_.choke else 0.0
        own = forward(spec, control, fm, rate, speed, rec[0] if control == "COMMON_ASV" else rec, dp, p, temp)
        t.check(own.ok, f"{tag}: a compressor works outside its chart: {own.stages}", key="outside chart")
        t.check(abs(own.p - target) <= ABS + 2 * REL * target, f"{tag}: forward calculation gives {own.p:.5f} bara, requested {target:.5f}", key="forward")
        t.check(
            abs(out.pressure_bara - own.p) <= ABS + REL * own.p and abs(out.temperature_kelvin - own.T) <= 0.3 and abs(out.mass_rate_kg_per_h - own.m) <= 1e-6 * (own.m + 1),
            f"{tag}: outlet {out.pressure_bara, out.temperature_kelvin, out.mass_rate_kg_per_h} against own {own.p, own.T, own.m}",
            key="outlet state",
        )
        # no more recirculation than needed when the choke does the pressure control
        if control in ("DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE"):
            for (_, _, q, lo, _, extra, through) in own.stages:
                t.check(extra <= 1e-3 or abs(q - lo) <= 2e-3 * lo, f"{tag}: recirculates {extra} Sm3/d although the flow {through} is above {lo}", key="needless recirculation")
        lo, _ = shaft_range(spec)
        t.check(dp <= REL * target + ABS or speed <= lo * (1 + 1e-9) or own.stages and _edge(own, spec, speed, rate, fm, control, p, temp), f"{tag}: chokes {dp} bar at speed {speed}", key="chokes above the lowest speed")
        t.outcome("solved")
        return "solved"
    f = sol.failure
    name = type(f).__name__
    must = solvable(spec, control, fm, rate, target, p, temp, cache)
    t.check(must is not True, f"{tag}: refused ({f}) although the lowest speed and pressure control at it can reach {target:.4f} bara", key=f"refused {name}")
    if isinstance(f, TargetPressureUnreachableFailure):
        if control != "INDIVIDUAL_ASV_PRESSURE":  # fails with the target of one stage
            t.check(f.target_pressure_bara == target, f"{tag}: failure names target {f.target_pressure_bara}", key="failure target")
        if f.direction == TargetDirection.MAX_BELOW_TARGET:
            t.check(f.achievable_pressure_bara < f.target_pressure_bara, f"{tag}: {f}", key="failure direction")
        else:
            t.check(f.achievable_pressure_bara > f.target_pressure_bara, f"{tag}: {f}", key="failure direction")
        if control != "INDIVIDUAL_ASV_PRESSURE" and len(settings) == len(sys_.handlers) and f.direction == TargetDirection.MIN_ABOVE_TARGET:
            fresh = System(spec, control, fm, rate).assemble()
            fresh.put(settings)
            out = call(t, lambda: fresh.system.runner.run(stream(fm, rate, p, temp)), f"{tag}: the closest settings cannot be run", key="closest does not run")
            t.check(abs(out.pressure_bara - f.achievable_pressure_bara) <= ABS + REL * out.pressure_bara, f"{tag}: closest {out.pressure_bara} reported {f.achievable_pressure_bara}", key="closest pressure")
        if f.direction == TargetDirection.MAX_BELOW_TARGET:
            _, hi = shaft_range(spec)
            r = outlet_range(spec, control, fm, rate, hi, p, temp)
            if r is not None and control not in ("COMMON_ASV", "INDIVIDUAL_ASV_PRESSURE"):
                t.check(abs(r.p - f.achievable_pressure_bara) <= ABS + 2 * REL * r.p, f"{tag}: most achievable {r.p:.4f} reported {f.achievable_pressure_bara:.4f}", key="most achievable")
    elif isinstance(f, CompressorStonewallFailure):
        ids = [c.get_id() for c in sys_.compressors]
        t.check(f.source_id in ids, f"{tag}: failure of an unknown compressor", key="unknown compressor")
        t.check(f.actual_rate_m3_per_hour > f.maximum_rate_m3_per_hour, f"{tag}: {f}", key="stonewall numbers")
    t.outcome(name)
    return name


def _edge(own, spec, speed, rate, fm, control, p, temp):
    """a choke may only be used above the lowest speed when the flow does not fit at a slightly lower speed"""
    return outlet_range(spec, control, fm, rate, speed * 0.985, p, temp) is None or any(abs(s[2] - s[4]) <= 0.02 * s[4] for s in own.stages)


def targets_of(spec, control, fm, rate, p=P_IN):
    lo, hi = shaft_range(spec)
    out = [p * 0.8, p]
    at = [outlet_range(spec, control, fm, rate, v, p) for v in (lo, (lo + hi) / 2, hi)]
    for r in at:
        if r is not None:
            out += [r.p]
    if at[0] is not None:
        out += [p + (at[0].p - p) * 0.6, at[0].p * 0.93, at[0].p * 0.995]
    if at[1] is not None and at[2] is not None:
        out += [(at[1].p + at[2].p) / 2]
    if at[2] is not None:
        out += [at[2].p * 0.9995, at[2].p * 1.002, at[2].p * 1.2]
    else:
        out += [p * 3, p * 6]
    return [round(x, 6) for x in out]


def std_rate(fm, actual, p=P_IN, temp=T):
    g = gas(fm)
    return actual * g.rho(p, temp) / g.rho_std * 24


RATES = [0.0, 300.0, 1500.0, 2900.0, 3300.0, 4500.0, 5950.0, 6500.0, 7600.0, 8150.0, 8400.0]


def run(ck):
    ck.bounds = {
        "sections": "1-3 compressors on one variable speed shaft, with and without coolers and pressure drops, offtake, injection, mismatched charts",
        "pressure control": "all five",
        "requests": "11 flows from zero to above the stone wall times 5-11 outlet pressures from below the inlet to above the highest achievable",
        "histories": "all ordered pairs (thorough: triples) of 8 requests on one object",
        "search primitives": "every step function with thresholds on a grid",
    }
    ck.assumptions += [
        "perfect gas behind the FluidService interface",
        "a refusal is judged against the documented scheme (speed first, pressure control at the lowest speed), at least 0.6 % inside its limits",
    ]
    fms = [LIGHT] if ck.quick else [LIGHT, HEAVY]
    names = list(SECTIONS)

    def single(t):
        control = t.pick("control", CONTROLS)
        name = t.pick("section", names)
        fm = t.pick("gas", fms)
        actual = t.pick("flow", RATES)
        spec = SECTIONS[name]
        rate = std_rate(fm, actual)
        cache = {}
        if rate == 0 and any(st.add for st in spec):
            raise Prune  # two streams without flow cannot be mixed
        for target in targets_of(spec, control, fm, rate):
            s = System(spec, control, fm, rate).assemble()
            tag = f"{control} {name} {actual} Am3/h to {target}"
            sol = call(t, lambda s=s, target=target: s.system.solver.find_solution([FloatConstraint(target)], stream(fm, rate)), tag, key="crash")
            judge(t, s, spec, control, fm, rate, target, sol, cache=cache, tag=tag)
            t.step()

    ck.explore("requests", single, bound=0)

    reqs = [(3300.0, 0), (3300.0, 1), (4500.0, 0), (4500.0, 2), (7600.0, 1), (1500.0, 0), (8400.0, 1), (4500.0, 3)]

    def history(t):
        control = t.pick("control", CONTROLS)
        name = t.pick("section", ck.q(["A", "A-B", "A-small B", "A-B-C"], names))
        spec = SECTIONS[name]
        fm = LIGHT
        lo, hi = shaft_range(spec)
        base = [outlet_range(spec, control, fm, std_rate(fm, 4500.0), v) for v in (lo, hi)]
        if None in base:
            raise Prune
        levels = [base[0].p * 0.9, (base[0].p + base[1].p) / 2, base[1].p * 0.97, base[1].p * 1.3]
        ask = lambda s, k: s.system.solver.find_solution([FloatConstraint(levels[reqs[k][1]])], stream(fm, std_rate(fm, reqs[k][0])))  # noqa: E731
        picks = [t.pick(f"request {i}", range(len(reqs))) for i in range(ck.q(2, 3))]
        # the side flows are fixed on the object, so they are those of the middle request for all
        mid = std_rate(fm, 4500.0)
        one = System(spec, control, fm, mid).assemble()
        for k in picks:
            a = call(t, lambda k=k: ask(one, k), "request on a used object", key="crash")
            fresh = System(spec, control, fm, mid).assemble()
            b = call(t, lambda k=k, fresh=fresh: ask(fresh, k), "request on a fresh object", key="crash")
            t.check(a.success == b.success and type(a.failure) is type(b.failure), f"{control} {name} {reqs[k]} after {picks}: {a.failure} against fresh {b.failure}", key="history")
            t.check(plain(one.settings(a.configuration)) == plain(fresh.settings(b.configuration)), f"{control} {name} {reqs[k]} after {picks}: {plain(one.settings(a.configuration))} against fresh {plain(fresh.settings(b.configuration))}", key="history")
            t.step()
        t.outcome("same")

    ck.explore("histories", history, bound=0)

    # ------------------------------------------------------------------ several sections
    layouts = {"A | B": [["A"], ["B"]], "A | B | C": [["A"], ["B"], ["C"]], "A-B | C": [["A", "B"], ["C"]], "A | wide B": [["A"], ["wide B"]], "A | small B": [["A"], ["small B"]]}

    def build(layout, controls, fm, rate, shared):
        specs = [[St(n) for n in sec] for sec in layouts[layout]]
        shaft = VariableSpeedShaft() if shared else None
        secs = [System(sp, c, fm, rate, shaft=shaft) for sp, c in zip(specs, controls)]
        for s in secs:
            s.assemble()
        return specs, secs

    def shared(t):
        layout = t.pick("layout", list(layouts))
        n = len(layouts[layout])
        first = t.pick("first", ["UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"])
        last = t.pick("last", ["DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE"])
        controls = [first, *["INDIVIDUAL_ASV_RATE"] * (n - 2), last]
        actual = t.pick("flow", ck.q([1500.0, 4500.0, 6500.0], [1500.0, 3300.0, 4500.0, 6500.0, 7800.0, 8400.0]))
        fm = LIGHT
        rate = std_rate(fm, actual)
        specs = [[St(x) for x in sec] for sec in layouts[layout]]
        lo, hi = shaft_range([s for sp in specs for s in sp])
        # each section is asked for its own outlet at one of three speeds
        speeds = [t.pick(f"level {i}", [0.0, 0.4, 0.9]) for i in range(n)]
        shift = t.pick("shift", [0.97, 1.0, 1.03] if not ck.quick else [0.98, 1.0])
        targets, p, temp = [], P_IN, T
        for sp, f in zip(specs, speeds):
            r = outlet_range(sp, "DOWNSTREAM_CHOKE", fm, rate, lo + f * (hi - lo), p, temp)
            if r is None:
                targets.append(p * 2.5)
                p, temp = targets[-1], 400.0
            else:
                targets.append(r.p * shift)
                p, temp = targets[-1], r.T
        specs, secs = build(layout, controls, fm, rate, True)
        tag = f"{layout} {controls} {actual} Am3/h targets {[round(x, 3) for x in targets]}"
        solver = MultiPressureSolver(Pipeline([s.system.pipeline_section for s in secs]))
        # the shaft is shared, so every section gets the whole shaft's speed range
        cons = [FloatConstraint(x) for x in targets]
        sol = call(t, lambda: solver.find_solution(cons, stream(fm, rate)), tag, key="crash")
        again = call(t, lambda: solver.find_solution(cons, stream(fm, rate)), tag, key="crash")
        t.check(type(sol.failure) is type(again.failure) and [c.value for c in sol.configuration] == [c.value for c in again.configuration], f"{tag}: asked again: {again} after {sol}", key="history")
        if not sol.success:
            t.outcome(type(sol.failure).__name__)
            sections_must(t, specs, controls, fm, rate, targets, sol, tag, True)
            return
        replay(t, layout, controls, fm, rate, targets, secs, sol, tag, True)

    def replay(t, layout, controls, fm, rate, targets, secs, sol, tag, is_shared):
        specs, fresh = build(layout, controls, fm, rate, is_shared)
        seen, cur, p, temp = set(), stream(fm, rate), P_IN, T
        for i, (a, b, sp, target, control) in enumerate(zip(secs, fresh, specs, targets, controls)):
            st = a.settings(sol.configuration)
            seen |= {id(v) for _, v in st}
            vals = plain(st)
            t.check(all(len(v) == 1 for v in vals.values()), f"{tag}: a setting is given twice: {vals}", key="setting twice")
            t.check(0 in vals, f"{tag}: no speed for section {i}", key="no speed")
            b.put(st)
            cur = call(t, lambda b=b, cur=cur: b.system.runner.run(cur), f"{tag}: section {i} cannot be run on a fresh system", key="does not run")
            t.check(abs(cur.pressure_bara - target) <= ABS + REL * target, f"{tag}: section {i} gives {cur.pressure_bara}", key="target missed")
            n = len(a.loops)
            rec = [vals.get(1 + k, [(None, 0.0)])[0][1] for k in range(n)]
            dp = vals.get(1 + n, [(None, 0.0)])[0][1] if a.choke else 0.0
            own = forward(sp, control, fm, rate, vals[0][0][1], rec[0] if control == "COMMON_ASV" else rec, dp, p, temp)
            t.check(own.ok and abs(own.p - target) <= ABS + 2 * REL * target, f"{tag}: section {i} forward: {own.stages} {getattr(own, 'p', None)}", key="forward")
            t.check(min(rec) >= 0 and dp >= 0, f"{tag}: {vals}", key="impossible setting")
            if not is_shared:
                lo, hi = shaft_range(sp)
            else:
                lo, hi = shaft_range([s for x in specs for s in x])
            t.check(lo * (1 - 1e-9) <= vals[0][0][1] <= hi * (1 + 1e-9), f"{tag}: speed {vals[0]}", key="speed outside")
            p, temp = own.p, own.T
        t.check(len(seen) == len(sol.configuration), f"{tag}: settings of something else", key="foreign setting")
        t.outcome("solved")

    def sections_must(t, specs, controls, fm, rate, targets, sol, tag, is_shared):
        """sections one after the other: is each of them surely solvable on its own (shared shaft: with a choke last only for the binding one)?"""
        ok, p = True, P_IN
        shaft = shaft_range([s for sp in specs for s in sp])
        need = []
        for sp, control, target in zip(specs, controls, targets):
            rng = shaft if is_shared else None
            if solvable(sp, control, fm, rate, target, p, rng=rng) is not True:
                ok = False
                break
            need.append(needed_speed(sp, control, fm, rate, target, p, shaft))
            p = target
        if ok and is_shared:
            p, v = P_IN, max(need)
            for sp, control, target, own in zip(specs, controls, targets, need):
                if own < v * (1 - 1e-6) and lowest_by_control(sp, control, fm, rate, v, target, p) is not True:
                    ok = False
                p = target
        t.note("judged refusal" if ok else "refusal not judged")
        t.check(not ok, f"{tag}: refused ({sol.failure}) although every section can reach its target", key="sections refused")

    ck.explore("shared shaft", shared, bound=0)

    def own_shafts(t):
        layout = t.pick("layout", list(layouts))
        n = len(layouts[layout])
        control = t.pick("control", CONTROLS)
        controls = [control] * n
        actual = t.pick("flow", [1500.0, 3300.0, 4500.0, 6500.0, 8400.0])
        fm = t.pick("gas", fms)
        rate = std_rate(fm, actual)
        equal = t.flip("equal ratio")
        specs = [[St(x) for x in sec] for sec in layouts[layout]]
        targets, p = [], P_IN
        if equal:
            total = t.pick("ratio", [0.9, 1.0, 2.0, 4.0, 6.0, 9.0, 14.0, 40.0])
            targets = [P_IN * total ** ((i + 1) / n) for i in range(n)]
        else:
            for i, sp in enumerate(specs):
                lo, hi = shaft_range(sp)
                f = t.pick(f"level {i}", [-1, 0.3, 0.9, 2])
                r = [outlet_range(sp, "DOWNSTREAM_CHOKE", fm, rate, v, p, T) for v in (lo, hi)]
                if None in r:
                    targets.append(p * 2.5)
                else:
                    targets.append(r[0].p * 0.95 if f == -1 else r[1].p * 1.05 if f == 2 else r[0].p + f * (r[1].p - r[0].p))
                p = targets[-1]
        specs, secs = build(layout, controls, fm, rate, False)
        tag = f"{layout} {control} {actual} Am3/h targets {[round(x, 3) for x in targets]} equal={equal}"
        sections = [s.system.pipeline_section for s in secs]
        if equal:
            sol = call(t, lambda: MultiShaftEqualRatioSolver(sections).find_solution([FloatConstraint(targets[-1])], stream(fm, rate)), tag, key="crash")
        else:
            sol = call(t, lambda: MultiShaftSolver(sections).find_solution([FloatConstraint(x) for x in targets], stream(fm, rate)), tag, key="crash")
        if sol.success:
            replay(t, layout, controls, fm, rate, targets, secs, sol, tag, False)
        else:
            t.outcome(type(sol.failure).__name__)
            sections_must(t, specs, controls, fm, rate, targets, sol, tag, False)

    ck.explore("own shafts", own_shafts, bound=0)

    # ------------------------------------------------------------------ streams that no setting can handle
    wet_service = IdealGas(condensing=True)

    def bad_inlet(t):
        control = t.pick("control", CONTROLS)
        what = t.pick("what", ["liquid", "drop", "drop between", "offtake", "offtake first"])
        actual = t.pick("flow", [500.0, 4500.0, 6500.0])
        target = t.pick("target", [15.0, 45.0, 60.0, 100.0])
        fm, p, temp, service = LIGHT, P_IN, T, SERVICE
        if what == "liquid":
            spec, fm, service = [St("A", T=t.pick("T", [285.0, 315.0]))], WET, wet_service
        elif what == "drop":
            spec, p = [St("A", dp=t.pick("dp", [2.0, 2.5])), St("B")], 2.0
        elif what == "drop between":
            spec = [St("A"), St("B", dp=t.pick("dp", [100.0, 150.0]))]
        elif what == "offtake":
            spec = [St("A"), St("B", out=t.pick("out", [1.01, 1.5]))]
        else:
            spec = [St("A", out=t.pick("out", [1.01, 1.5])), St("B")]
        rate = std_rate(fm, actual, p, temp)
        s = System(spec, control, fm, rate, service=service).assemble()
        inlet = service.create_stream_from_standard_rate(fm, p, temp, rate)
        tag = f"{control} {what} {actual} Am3/h to {target}"
        sol = call(t, lambda: s.system.solver.find_solution([FloatConstraint(target)], inlet), tag, key="crash")
        t.check(not sol.success, f"{tag}: solved with {plain(s.settings(sol.configuration))}", key="impossible solved")
        kinds = {"liquid": LiquidAtInletFailure, "drop": InsufficientInletPressureFailure, "drop between": InsufficientInletPressureFailure}.get(what, OfftakeExceedsInletFailure)
        if what != "drop between" and actual == 4500.0:
            t.check(isinstance(sol.failure, kinds), f"{tag}: failure {sol.failure}", key="failure kind")
        if isinstance(sol.failure, LiquidAtInletFailure):
            t.check(sol.failure.process_unit_id in [c.get_id() for c in s.compressors] and 0 <= sol.failure.vapor_fraction < 1, f"{tag}: {sol.failure}", key="failure numbers")
        if isinstance(sol.failure, InsufficientInletPressureFailure):
            t.check(sol.failure.inlet_pressure_bara <= sol.failure.required_delta_pressure_bara, f"{tag}: {sol.failure}", key="failure numbers")
        if isinstance(sol.failure, OfftakeExceedsInletFailure):
            t.check(sol.failure.available_rate < sol.failure.offtake_rate, f"{tag}: {sol.failure}", key="failure numbers")
        t.outcome(type(sol.failure).__name__)

    ck.explore("impossible streams", bad_inlet, bound=0)

    # ------------------------------------------------------------------ how much of a rate a train can take
    def excess(t):
        control = t.pick("control", CONTROLS)
        name = t.pick("section", ["A", "A-B", "A-small B", "A-B-C"])
        spec = SECTIONS[name]
        fm = LIGHT
        lo, hi = shaft_range(spec)
        base = [outlet_range(spec, control, fm, std_rate(fm, 4500.0), v) for v in (lo, hi)]
        levels = [base[0].p * 0.9, (base[0].p + base[1].p) / 2, base[1].p * 0.97, base[1].p * 1.05, base[1].p * 2] if None not in base else [P_IN * 3]
        target = t.pick("target", levels)
        actual = t.pick("flow", [0.0, 1500.0, 4500.0, 6000.0, 8400.0, 12000.0, 30000.0])
        rate = std_rate(fm, actual)
        tag = f"{control} {name} {actual} Am3/h to {target:.3f}"
        make = lambda: System(spec, control, fm, rate).assemble()  # noqa: E731
        ok = lambda x: make().system.solver.find_solution([FloatConstraint(target)], stream(fm, x)).success  # noqa: E731
        x = call(t, lambda: FeasibilitySolver(make().system.solver).get_excess_rate(stream(fm, rate), FloatConstraint(target)), tag, key="crash")
        t.check(math.isfinite(x) and -1e-9 <= x <= rate * (1 + 1e-9), f"{tag}: excess {x} of {rate}", key="excess range")
        kept = rate - x
        if rate == 0 or ok(rate):
            t.check(x == 0, f"{tag}: {x} of {rate} turned away although all of it can be taken", key="excess of a feasible rate")
            t.outcome("all")
            return
        t.check(x > 0, f"{tag}: nothing turned away although {rate} cannot be taken", key="no excess")
        if kept > 1e-9 * rate:
            t.check(ok(kept), f"{tag}: keeps {kept} of {rate}, which cannot be taken", key="kept rate infeasible")
            t.check(not all(ok(kept + i * 4e-4 * rate) for i in range(1, 6)), f"{tag}: keeps {kept} of {rate} although {kept + 2e-3 * rate} can be taken", key="kept too little")
            t.outcome("part")
        else:
            grid = [i / 20 for i in range(1, 20)]
            t.check(not (ok(rate * 1e-3) and ok(rate / 2)), f"{tag}: keeps nothing of {rate}", key="kept nothing")
            t.outcome("nothing")

    ck.explore("excess", excess, bound=0)

    # ------------------------------------------------------------------ search primitives
    def bisect(t):
        lo, hi = t.pick("range", [(0.0, 1.0), (100.0, 200.0), (0.0, 1e6), (7500.0, 10500.0), (5.0, 5.0)])
        tol = t.pick("tolerance", [1e-2, 1e-5, 1e-9])
        n = t.pick("iterations", [10, 20, 60])
        pts = [lo + (hi - lo) * i / 32 for i in range(33)] + [lo - 1, hi + 1, lo + (hi - lo) * 0.3712345]
        x0 = t.pick("threshold", pts)
        kind = t.pick("kind", ["highest", "lowest", "search"])
        b = Bisect(tolerance=tol, max_iterations=n)
        width = max((hi - lo) / 2**n, tol * max(abs(lo), abs(hi), 1.0)) * 1.001 + 1e-12
        calls = []
        if kind == "search":
            def f(x):
                calls.append(x)
                return BisectResult(higher=x <= x0, accepted=x <= x0)

            try:
                r = b.search(Boundary(min=lo, max=hi), f)
            except DidNotConvergeError:
                t.check(x0 < lo + width or hi - lo == 0, f"{lo}-{hi} threshold {x0}: nothing found", key="search")
                t.outcome("none")
                return
            t.check(lo <= r <= hi and r <= x0, f"{lo}-{hi} threshold {x0}: {r} does not fulfil the condition", key="search")
            t.check(min(x0, hi) - r <= width, f"{lo}-{hi} threshold {x0} tolerance {tol}: {r}", key="search")
        else:
            pred = (lambda x: x <= x0) if kind == "highest" else (lambda x: x >= x0)
            r = (b.highest_true if kind == "highest" else b.lowest_true)(Boundary(min=lo, max=hi), pred)
            exists = x0 >= lo if kind == "highest" else x0 <= hi
            t.check((r is not None) == exists, f"{kind} {lo}-{hi} threshold {x0}: {r}", key="first true")
            if r is None:
                t.outcome("none")
                return
            best = min(x0, hi) if kind == "highest" else max(x0, lo)
            t.check(lo <= r <= hi and pred(r), f"{kind} {lo}-{hi} threshold {x0}: {r} does not fulfil the condition", key="first true")
            t.check(abs(best - r) <= width, f"{kind} {lo}-{hi} threshold {x0} tolerance {tol}: {r}", key="first true")
        t.check(len(calls) <= n, f"{len(calls)} probes", key="probes")
        t.outcome("found")

    ck.explore("bisection", bisect, bound=0)
