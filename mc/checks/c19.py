"""C19: mixing, splitting, choking and distributing streams.  All small sets of streams (compositions, rates, pressures, temperatures, orders), all
chains of process units up to a length with all their settings, and all distributions of a rate over parallel users (shares, capacities, overflow
edges, orders of the users, priority lists) are run on the real units with a perfect gas (that may condense) and compared with plain balances."""

import dataclasses
import itertools

from libecalc.common.errors.exceptions import EcalcError
from libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer import LegacyMixer
from libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter import LegacySplitter
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from libecalc.process.fluid_stream.fluid_stream import FluidStream
from libecalc.process.fluid_stream.stream_mixer import StreamMixer
from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError, OfftakeExceedsInletError
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.direct_mixer import DirectMixer
from libecalc.process.process_units.direct_splitter import DirectSplitter
from libecalc.process.process_units.inlet import Inlet
from libecalc.process.process_units.liquid_remover import LiquidRemover
from libecalc.process.process_units.mixer import Mixer
from libecalc.process.process_units.outlet import Outlet
from libecalc.process.process_units.pressure_dropper import PressureDropper
from libecalc.process.process_units.splitter import Splitter
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, HasExcessRate, Overflow
from libecalc.process.stream_distribution.individual_stream_distribution import IndividualStreamDistribution
from libecalc.process.stream_distribution.priorities_stream_distribution import HasValidity, PrioritiesStreamDistribution

from mc.core import Prune
from mc.gas import DRY, HEAVY, LIGHT, WET, M, IdealGas, fractions, gas

SERVICE = IdealGas()
COND = IdealGas(condensing=True)


def model(eos=EoSModel.SRK, **x):
    return FluidModel(eos_model=eos, composition=FluidComposition(**x))


INERT = model(nitrogen=1.0)
PERCENT = model(methane=60.0, ethane=20.0, propane=10.0, CO2=10.0)  # HEAVY, not normalised
PARTIAL = model(methane=0.5, propane=0.25)  # does not add up to one
FLUIDS = {"light": LIGHT, "heavy": HEAVY, "dry": DRY, "inert": INERT, "percent": PERCENT, "partial": PARTIAL}


def same(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def moles(s: FluidStream):
    """kmol/h of every component"""
    x = fractions(s.fluid_model)
    n = s.mass_rate_kg_per_h / sum(v * M[k] for k, v in x.items()) / 1000
    return {k: n * v for k, v in x.items()}


def add(ds):
    out: dict = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0.0) + v
    return out


def same_moles(a, b):
    return all(same(a.get(k, 0.0), b.get(k, 0.0)) for k in set(a) | set(b))


def show(s):
    return f"{s.mass_rate_kg_per_h:g} kg/h at {s.pressure_bara:g} bara, {s.temperature_kelvin:g} K"


def stream(fm, m, p, T, service=SERVICE):
    return service.create_stream_from_mass_rate(fm, p, T, m)


def check_mix(t, streams, out):
    t.check(same(out.mass_rate_kg_per_h, sum(s.mass_rate_kg_per_h for s in streams)), f"mass of the mix: {show(out)} from {[show(s) for s in streams]}")
    t.check(same_moles(moles(out), add(moles(s) for s in streams)), f"components of the mix {moles(out)} from {[moles(s) for s in streams]}")
    h_in = sum(s.mass_rate_kg_per_h * s.enthalpy_joule_per_kg for s in streams)
    t.check(same(out.mass_rate_kg_per_h * out.enthalpy_joule_per_kg, h_in, 1e-7, 1e-3), f"enthalpy of the mix: {out.mass_rate_kg_per_h * out.enthalpy_joule_per_kg} from {h_in}")
    t.check(same(out.pressure_bara, min(s.pressure_bara for s in streams)), f"pressure of the mix {out.pressure_bara} from {[s.pressure_bara for s in streams]}")
    t.check(same(sum(v for _, v in out.composition.items()), 1.0), "fractions of the mix do not add up to one")


# ------------------------------------------------------------------------------------------------------------------ mixing
def mixing(sizes, fluids, rates, pressures, temps):
    def scenario(t):
        n = t.pick("number of streams", sizes)
        spec = [
            (t.pick(f"fluid {i}", fluids), t.pick(f"mass {i}", rates), t.pick(f"p {i}", pressures), t.pick(f"T {i}", temps)) for i in range(n)
        ]
        if spec != sorted(spec, key=repr):
            raise Prune  # other orders are tried below
        streams = [stream(FLUIDS[f], m, p, T) for f, m, p, T in spec]
        t.state(tuple(spec))
        if sum(x[1] for x in spec) == 0:
            t.outcome("nothing flows")
            for order in itertools.permutations(streams):
                t.raises(lambda: StreamMixer(SERVICE).mix_streams(list(order)), "mixing streams without flow", EcalcError)
            return
        t.outcome(f"{n} streams")
        first = None
        for k, order in enumerate(itertools.permutations(streams)):
            t.step()
            out = (StreamMixer(SERVICE) if k % 2 else LegacyMixer(n, SERVICE)).mix_streams(list(order))
            check_mix(t, streams, out)
            first = first or out
            t.check(same(out.temperature_kelvin, first.temperature_kelvin) and same_moles(moles(out), moles(first)), "the mix depends on the order of the streams")
        if n == 2:
            for a, b in (streams, streams[::-1]):
                unit = Mixer(SERVICE)
                unit.set_stream(b)
                out = unit.propagate_stream(a)
                check_mix(t, streams, out)
                if a.mass_rate_kg_per_h:
                    unit.set_stream(a)  # the unit follows its latest setting
                    check_mix(t, [a, a], unit.propagate_stream(a))
        for s, (f, m, p, T) in zip(streams, spec):
            t.check((s.mass_rate_kg_per_h, s.pressure_bara, s.temperature_kelvin, s.fluid_model) == (m, p, T, FLUIDS[f]), "mixing changed an inlet stream")

    return scenario


def mixing_rules(t):
    """what cannot be mixed is refused"""
    a, b = stream(LIGHT, 100.0, 20.0, 300.0), stream(HEAVY, 50.0, 10.0, 320.0)
    eos = t.pick("other equation of state", list(EoSModel))
    where = t.pick("where", [0, 1, 2])
    other = stream(FluidModel(eos_model=eos, composition=LIGHT.composition), 10.0, 15.0, 310.0)
    streams = [a, b]
    streams.insert(where, other)
    if eos == EoSModel.SRK:
        t.outcome("mixed")
        check_mix(t, streams, StreamMixer(SERVICE).mix_streams(streams))
    else:
        t.outcome("refused")
        t.raises(lambda: StreamMixer(SERVICE).mix_streams(streams), "mixing different equations of state", EcalcError)
    t.raises(lambda: StreamMixer(SERVICE).mix_streams([]), "mixing nothing", EcalcError)


# ------------------------------------------------------------------------------------------------------------- units and chains
def unit_options(deep):
    yield "inlet", None
    yield "outlet", None
    for dp in (0.0, 5.0, 19.0, 20.0, 25.0) if deep else (0.0, 5.0, 20.0):
        yield "choke", dp
        yield "dropper", dp
    for T in (290.0, 303.15, 350.0):
        yield "temperature", T
    yield "scrubber", None
    for f in (0.0, 0.25, 1.0, 1.5):
        yield "offtake", f
        yield "direct out", f
    for f in (0.0, 0.5):
        yield "direct in", f
    for f in ("light", "heavy", "none"):
        yield "injection", f


def run_unit(t, s: FluidStream, kind, v, service):
    """apply one unit; check its contract; return the outlet, or None when it has to refuse"""
    q = s.standard_rate_sm3_per_day
    keep = dict(p=s.pressure_bara, T=s.temperature_kelvin, m=s.mass_rate_kg_per_h, x=s.fluid_model)

    def unchanged(out, *names):
        now = dict(p=out.pressure_bara, T=out.temperature_kelvin, m=out.mass_rate_kg_per_h)
        for n in names:
            if n == "x":
                t.check(same_moles(fractions(out.fluid_model), fractions(keep["x"])), f"{kind} {v} changed the composition")
            else:
                t.check(same(now[n], keep[n]), f"{kind} {v} changed {n} from {keep[n]} to {now[n]}")

    if kind in ("inlet", "outlet"):
        out = (Inlet() if kind == "inlet" else Outlet()).propagate_stream(s)
        unchanged(out, "p", "T", "m", "x")
        return out
    if kind in ("choke", "dropper"):
        unit = Choke(service) if kind == "choke" else PressureDropper(service)
        setter = unit.set_pressure_change if kind == "choke" else unit.set_pressure_drop
        setter(1.0)
        setter(v)
        t.raises(lambda: setter(-1.0), f"negative pressure drop of a {kind}", Exception)
        if v >= s.pressure_bara:
            t.raises(lambda: unit.propagate_stream(s), f"{kind} of {v} bar at {s.pressure_bara} bara", InsufficientInletPressureError)
            return None
        out = unit.propagate_stream(s)
        unchanged(out, "T", "m", "x")
        t.check(same(out.pressure_bara, s.pressure_bara - v), f"{kind} of {v} bar: {s.pressure_bara} to {out.pressure_bara}")
        return out
    if kind == "temperature":
        unit = TemperatureSetter(service, required_temperature_kelvin=300.0)
        unit.set_temperature(v)
        out = unit.propagate_stream(s)
        unchanged(out, "p", "m", "x")
        t.check(same(out.temperature_kelvin, v), f"temperature set to {v}: {out.temperature_kelvin}")
        return out
    if kind == "scrubber":
        out = LiquidRemover(service).propagate_stream(s)
        unchanged(out, "p", "T")
        a, b = moles(s), moles(out)
        t.check(all(same(a[k], b.get(k, 0.0)) for k in a if k != "n_hexane"), f"scrubbing changed the gas: {a} to {b}")
        t.check(b.get("n_hexane", 0.0) <= a.get("n_hexane", 0.0) * (1 + 1e-9) + 1e-12, f"scrubbing added liquid: {a} to {b}")
        gone = sum(a.values()) - sum(b.values())
        t.check(same(gone, sum(a.values()) * (1 - s.vapor_fraction_molar), 1e-7), f"scrubbing removed {gone} of {sum(a.values())} kmol/h, vapour fraction {s.vapor_fraction_molar}")
        t.check(same(out.vapor_fraction_molar, 1.0), f"liquid left after scrubbing: {out.vapor_fraction_molar}")
        t.check(same(sum(x for _, x in out.composition.items()), 1.0) or out.fluid_model == s.fluid_model, "fractions after scrubbing")
        return out
    if kind == "offtake":
        rate = v * q
        if v == 1.5 and q == 0:
            rate = 1000.0
        unit = Splitter(service)
        unit.set_rate(rate)
        if rate > q:
            t.raises(lambda: unit.propagate_stream(s), f"offtake of {rate} from {q}", OfftakeExceedsInletError)
            return None
        out, gone = unit.propagate_stream(s), unit.get_split_stream(s)
        unchanged(out, "p", "T", "x")
        unchanged(gone, "p", "T", "x")
        t.check(same(out.mass_rate_kg_per_h + gone.mass_rate_kg_per_h, s.mass_rate_kg_per_h, 1e-9, 1e-6), f"parts {out.mass_rate_kg_per_h} and {gone.mass_rate_kg_per_h} of {s.mass_rate_kg_per_h}")
        t.check(same(gone.standard_rate_sm3_per_day, rate, 1e-9, 1e-6), f"offtake {gone.standard_rate_sm3_per_day} instead of {rate}")
        legacy = LegacySplitter(3)
        legacy.rates_out_of_splitter = [rate / 4, rate * 3 / 4]
        parts = legacy.split_stream(s)
        t.check(same(sum(p.mass_rate_kg_per_h for p in parts), s.mass_rate_kg_per_h, 1e-9, 1e-6), f"parts {[p.mass_rate_kg_per_h for p in parts]} of {s.mass_rate_kg_per_h}")
        for p, r in zip(parts, [rate / 4, rate * 3 / 4, q - rate]):
            unchanged(p, "p", "T", "x")
            t.check(same(p.standard_rate_sm3_per_day, r, 1e-9, 1e-6), f"part {p.standard_rate_sm3_per_day} instead of {r}")
        return out
    if kind in ("direct in", "direct out"):
        rate = v * q
        if kind == "direct in":
            unit = DirectMixer()
            unit.set_mix_rate(rate)
            out = unit.propagate_stream(s)
            sign = 1
        else:
            unit = DirectSplitter()
            unit.set_split_rate(rate)
            if v > 1 and q > 0:
                t.raises(lambda: unit.propagate_stream(s), f"removing {rate} from {q}", EcalcError)
                return None
            if v == 1:
                rate *= 1 - 1e-9
                unit.set_split_rate(rate)
            out = unit.propagate_stream(s)
            sign = -1
        unchanged(out, "p", "T", "x")
        t.check(same(out.standard_rate_sm3_per_day, q + sign * rate, 1e-9, 1e-6), f"{kind} {rate}: {q} to {out.standard_rate_sm3_per_day}")
        return out
    unit = Mixer(service)
    if v == "none":
        t.raises(lambda: unit.propagate_stream(s), "mixer without its stream", Exception)
        return None
    extra = stream(FLUIDS[v], 500.0, 15.0, 340.0, service)
    unit.set_stream(extra)
    out = unit.propagate_stream(s)
    check_mix(t, [s, extra], out)
    return out


def chains(length, deep):
    opts = list(unit_options(deep))

    def scenario(t):
        wet = t.flip("condensing gas")
        service = COND if wet else SERVICE
        s = stream(WET if wet else HEAVY, t.pick("mass", [5000.0, 0.0]), 20.0, t.pick("T", [303.15, 345.0]), service)
        for i in range(length):
            kind, v = t.pick(f"unit {i}", opts)
            before = dataclasses.replace(s)
            out = run_unit(t, s, kind, v, service)
            t.step()
            t.check(s == before, f"{kind} {v} changed its inlet stream")
            t.outcome(kind + (" refused" if out is None else ""))
            if out is None:
                return
            t.state((kind, str(v), round(out.pressure_bara, 6), round(out.temperature_kelvin, 6), round(out.mass_rate_kg_per_h, 6)))
            s = out

    return scenario


def conversions(t):
    """rates of a stream are one quantity"""
    fm = FLUIDS[t.pick("fluid", list(FLUIDS))]
    m, p, T = t.pick("mass", [0.0, 1.0, 12345.0]), t.pick("p", [1.01325, 20.0, 300.0]), t.pick("T", [278.15, 288.15, 400.0])
    s = stream(fm, m, p, T)
    g = gas(fm)
    t.check(same(s.volumetric_rate_m3_per_hour, m / g.rho(p, T)), "volumetric rate")
    t.check(same(s.standard_rate_sm3_per_day, m / g.rho_std * 24), "standard rate")
    f = t.pick("factor", [0.0, 0.5, 2.0])
    a, b = s.with_mass_rate(m * f), s.with_standard_rate(s.standard_rate_sm3_per_day * f)
    c = FluidStream.from_standard_rate(s.standard_rate_sm3_per_day * f, fm, s.fluid_properties)
    for x in (a, b, c):
        t.check(same(x.mass_rate_kg_per_h, m * f) and same(x.standard_rate_sm3_per_day, s.standard_rate_sm3_per_day * f), "changed rate")
        t.check((x.pressure_bara, x.temperature_kelvin, x.fluid_model) == (p, T, fm), "changing the rate changed the state")
    t.check(s.mass_rate_kg_per_h == m, "the stream itself changed")
    d = s.with_new_fluid(SERVICE.create_fluid(HEAVY, 11.0, 311.0))
    t.check((d.mass_rate_kg_per_h, d.pressure_bara, d.temperature_kelvin, d.fluid_model) == (m, 11.0, 311.0, HEAVY), "new fluid")
    t.raises(lambda: s.with_mass_rate(-1.0), "negative rate", EcalcError)
    t.outcome("ok")


# ------------------------------------------------------------------------------------------------------------------ distribution
class User(HasExcessRate, HasValidity):
    def __init__(self, cap):
        self.cap = cap

    def get_excess_rate(self, inlet_stream):
        return max(0.0, inlet_stream.standard_rate_sm3_per_day - self.cap)

    def is_valid(self, inlet_stream):
        return self.get_excess_rate(inlet_stream) == 0.0


def expected(names, rates, caps, edges):
    """own distribution: a user passes what exceeds its capacity to the user its overflow names"""
    r = dict(zip(names, rates))
    target = dict(edges)
    done: list = []
    while len(done) < len(names):
        for n in names:
            if n not in done and all(a in done for a, b in edges if b == n):
                done.append(n)
                if n in target:
                    over = max(0.0, r[n] - caps[n])
                    r[n] -= over
                    r[target[n]] += over
    return r


def acyclic(names, edges):
    for n in names:
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            for a, b in edges:
                if a == x:
                    if b == n:
                        return False
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
    return True


def distribution(n, fractions_, caps_, totals):
    names = [f"u{i}" for i in range(n)]
    pairs = [None, *[x for x in range(n)]]

    def scenario(t):
        total = t.pick("total", totals)
        share = t.pick("shares", [f for f in itertools.product(fractions_, repeat=n) if abs(sum(f) - 1) < 1e-9])
        targets = [t.pick(f"overflow of {a}", [p for p in pairs if p != i]) for i, a in enumerate(names)]
        edges = [(names[i], names[j]) for i, j in enumerate(targets) if j is not None]
        used = [i for i, j in enumerate(targets) if j is not None]
        caps = {a: t.pick(f"capacity of {a}", caps_) if i in used else caps_[-1] for i, a in enumerate(names)}
        inlet = SERVICE.create_stream_from_standard_rate(LIGHT, 20.0, 303.15, total)
        overflows = [Overflow(from_id=a, to_id=b) for a, b in edges]
        if len(overflows) > 1 and t.flip("overflows listed in reverse"):
            overflows.reverse()
        t.state((total, share, tuple(edges), tuple(caps.values())))

        def make():
            return CommonStreamDistribution(
                inlet_stream=inlet, items={a: User(c) for a, c in caps.items()}, rate_fractions=list(share), overflows=overflows, fluid_service=SERVICE
            )

        if not acyclic(names, edges):
            t.outcome("cycle")
            t.raises(lambda: make(), f"cyclic overflow {edges}", EcalcError)
            return
        d = make()
        t.check(d.get_number_of_streams() == n, "number of streams")
        want = expected(names, [f * total for f in share], caps, edges)
        for again in range(2):
            out = d.get_streams()
            got = [s.standard_rate_sm3_per_day for s in out]
            t.check(len(got) == n and same(sum(got), total, 1e-9, 1e-6), f"{got} of {total}")
            t.check(all(same(g, want[a], 1e-9, 1e-6) for g, a in zip(got, names)), f"shares {share} of {total}, capacities {caps}, overflow {edges}: {got}, expected {list(want.values())}")
            for a, g in zip(names, got):
                if any(x == a for x, _ in edges):
                    t.check(g <= caps[a] * (1 + 1e-9) + 1e-6, f"{a} gets {g} with a capacity of {caps[a]} and an overflow")
            for s in out:
                t.check(same(s.pressure_bara, 20.0) and same(s.temperature_kelvin, 303.15) and same_moles(fractions(s.fluid_model), fractions(LIGHT)), "state of a distributed stream")
        t.outcome("overflow used" if any(not same(want[a], f * total) for a, f in zip(names, share)) else "shares")

    return scenario


def several_overflows(t):
    """a user with two overflows uses the second when the first is full"""
    names = ["u0", "u1", "u2"]
    source = t.pick("user", names)
    others = [a for a in names if a != source]
    if t.flip("other order"):
        others.reverse()
    caps = {a: t.pick(f"capacity of {a}", [100.0, 300.0, 1000.0]) for a in names}
    share = {a: (1.0 if a == source else 0.0) for a in names}
    inlet = SERVICE.create_stream_from_standard_rate(LIGHT, 20.0, 303.15, 600.0)
    d = CommonStreamDistribution(
        inlet_stream=inlet, items={a: User(caps[a]) for a in names}, rate_fractions=[share[a] for a in names],
        overflows=[Overflow(from_id=source, to_id=o) for o in others], fluid_service=SERVICE,
    )  # fmt: skip
    got = dict(zip(names, (s.standard_rate_sm3_per_day for s in d.get_streams())))
    t.state((source, tuple(others), tuple(caps.values())))
    t.check(same(sum(got.values()), 600.0, 1e-9, 1e-6), f"{got} of 600")
    t.check(got[source] <= caps[source] + 1e-6, f"{source} gets {got[source]}, capacity {caps[source]}")
    spare = {a: caps[a] - got[a] for a in others}
    worst = min(spare, key=spare.get)
    best = max(spare, key=spare.get)
    t.check(
        spare[worst] >= -1e-6 or spare[best] <= 1e-6,
        f"{worst} gets {got[worst]} with a capacity of {caps[worst]} while {best} with a capacity of {caps[best]} gets {got[best]}",
    )
    t.outcome("ok")


def priorities(n_lists, n):
    share_sets = {2: [(1.0, 0.0), (0.75, 0.25), (0.5, 0.5), (0.0, 1.0)], 3: [(1.0, 0.0, 0.0), (0.5, 0.5, 0.0), (0.25, 0.25, 0.5)]}[n]

    def scenario(t):
        total = 1000.0
        caps = [t.pick(f"capacity {i}", [200.0, 500.0, 750.0, 1000.0]) for i in range(n)]
        names = [f"u{i}" for i in range(n)]
        inlet = SERVICE.create_stream_from_standard_rate(LIGHT, 20.0, 303.15, total)
        users = {a: User(c) for a, c in zip(names, caps)}
        lists, wants = [], []
        for k in range(t.pick("settings", n_lists)):
            share = t.pick(f"shares {k}", share_sets)
            over = t.flip(f"overflow {k}")
            edges = [(names[0], names[1])] if over else []
            kind = "common"
            if not over and k == 0 and t.flip("individual streams"):
                kind = "individual"
            if kind == "common":
                lists.append(CommonStreamDistribution(inlet, users, list(share), [Overflow(from_id=a, to_id=b) for a, b in edges], SERVICE))
            else:
                ind = IndividualStreamDistribution([SERVICE.create_stream_from_standard_rate(LIGHT, 20.0, 303.15, f * total) for f in share])
                t.check(ind.get_number_of_streams() == n, "number of individual streams")
                lists.append(ind)
            w = expected(names, [f * total for f in share], dict(zip(names, caps)), edges)
            wants.append([w[a] for a in names])
        valid = [all(x <= c + 1e-9 for x, c in zip(w, caps)) for w in wants]
        chosen = valid.index(True) if any(valid) else len(wants) - 1
        d = PrioritiesStreamDistribution(lists, [users[a] for a in names])
        got = [s.standard_rate_sm3_per_day for s in d.get_streams()]
        t.state((tuple(caps), tuple(map(tuple, wants))))
        t.check(d.get_number_of_streams() == n, "number of streams")
        t.check(same(sum(got), total, 1e-9, 1e-6), f"{got} of {total}")
        t.check(all(same(a, b, 1e-9, 1e-6) for a, b in zip(got, wants[chosen])), f"capacities {caps}, settings {wants}: {got}, expected setting {chosen}")
        t.outcome(f"setting {chosen}" + ("" if any(valid) else ", none valid"))

    return scenario


def run(ck):
    names = list(FLUIDS)
    ck.explore("mixing", mixing([1, 2], names, [0.0, 100.0, 2500.0], [10.0, 30.0], [280.0, 320.0, 400.0]), 0, cap_s=ck.q(60, 300))
    ck.explore("mixing three", mixing([3], ck.q(["light", "heavy", "inert", "partial"], names), [0.0, 2500.0], [10.0, 30.0], ck.q([280.0, 400.0], [280.0, 320.0, 400.0])), 0, cap_s=ck.q(60, 300))
    ck.explore("mixing rules", mixing_rules, 0)
    ck.explore("conversions", conversions, 0)
    ck.explore("chains of units", chains(3, False), 0, cap_s=ck.q(90, 400))
    if not ck.quick:
        ck.explore("chains of four units", chains(4, False), 0, cap_s=500)
    ck.explore("distribution over two", distribution(2, [0.0, 0.25, 0.5, 0.75, 1.0], [0.0, 100.0, 300.0, 600.0, 2000.0], [0.0, 400.0, 1000.0]), 0, cap_s=60)
    ck.explore("distribution over three", distribution(3, [0.0, 0.25, 0.5, 1.0], [0.0, 100.0, 300.0, 2000.0], [1000.0]), 0, cap_s=ck.q(60, 200))
    if not ck.quick:
        ck.explore("distribution over four", distribution(4, [0.1, 0.4], [100.0, 300.0], [1000.0]), 0, cap_s=300)
    ck.explore("several overflows", several_overflows, 0)
    ck.explore("priorities", priorities([1, 2], 2), 0, cap_s=60)
    ck.explore("priorities of three", priorities([1, 2, 3], 3), 0, cap_s=ck.q(60, 200))
    ck.bounds["streams mixed"] = 3
    ck.bounds["units in a chain"] = ck.q(3, 4)
    ck.bounds["parallel users"] = ck.q(3, 4)
    ck.assumptions += [
        "perfect gas (with condensing n-hexane) behind the FluidService interface; the NeqSim engine itself is not part of this check",
        "users of a distribution are stand-ins with a fixed capacity; the real capacity search is part of C18",
    ]
