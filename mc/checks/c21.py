"""C21: cached fluid calculations.  The real fluid service, caches and NeqSim wrapper run against a deterministic stand-in engine; all
request histories up to a depth (colliding compositions, equations of state, conditions, guesses, engine restarts, resets, faults at every
engine call) under all small cache sizes must return exactly what the engine gives for that very request."""

import dataclasses

from ecalc_neqsim_wrapper import java_service
from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheService
from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService, get_fluid_service_stats
from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.process.fluid_stream.fluid import Fluid
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from mc import fakejava as fj
from mc.core import Violation

COMPS = {
    "lean": {"methane": 0.9, "ethane": 0.1},
    "lean x2": {"methane": 1.8, "ethane": 0.2},
    "lean'": {"methane": 0.899999, "ethane": 0.100001},
    "swapped": {"methane": 0.1, "ethane": 0.9},
    "i-b": {"methane": 0.9, "i_butane": 0.1},
    "n-b": {"methane": 0.9, "n_butane": 0.1},
    "wet": {"methane": 0.7, "propane": 0.1, "n_hexane": 0.2},
}


def model(c, eos):
    return FluidModel(composition=FluidComposition(**COMPS[c]), eos_model=EoSModel(eos))


def M_real(c):
    return FluidComposition(**COMPS[c]).molar_mass_mixture


# (kind, composition, eos, numbers...)
REQUESTS = [
    ("pt", "lean", "SRK", 50.0, 320.0),
    ("pt", "lean", "PR", 50.0, 320.0),
    ("pt", "lean", "GERG_SRK", 50.0, 320.0),
    ("pt", "lean", "GERG_PR", 50.0, 320.0),
    ("pt", "lean'", "SRK", 50.0, 320.0),
    ("pt", "lean x2", "SRK", 50.0, 320.0),
    ("pt", "swapped", "SRK", 50.0, 320.0),
    ("pt", "i-b", "SRK", 50.0, 320.0),
    ("pt", "n-b", "SRK", 50.0, 320.0),
    ("pt", "wet", "PR", 50.0, 320.0),
    ("pt", "wet", "GERG_PR", 40.0, 300.0),
    ("pt", "lean", "SRK", 320.0, 50.0 + 250.0),
    ("pt", "lean", "SRK", 300.0, 320.0),
    ("pt", "lean", "SRK", 50.001, 320.0),
    ("pt", "lean", "SRK", 50.0, 320.0001),
    ("ph", "lean", "SRK", 50.0, 320.0, None),  # the enthalpy is numerically a temperature used above
    ("ph", "lean", "SRK", 50.0, 150000.0, None),
    ("ph", "lean", "SRK", 50.0, 150000.5, None),
    ("ph", "lean", "SRK", 50.0, 150000.0, 400.0),
    ("ph", "lean", "PR", 50.0, 150000.0, None),
    ("ph", "wet", "GERG_SRK", 50.0, 90000.0, None),
    ("ph", "lean", "SRK", 50.0, 500000.0, None),  # too far from standard temperature: fails without a guess ...
    ("ph", "lean", "SRK", 50.0, 500000.0, 420.0),  # ... and converges with one
    ("std->mass", "lean", "SRK", 1e6),
    ("std->mass", "wet", "SRK", 1e6),
    ("mass->std", "wet", "GERG_PR", 1e4),
    ("stream std", "i-b", "PR", 50.0, 320.0, 2e5),
    ("stream mass", "wet", "SRK", 50.0, 280.0, 3e4),
    ("remove liquid", "wet", "SRK", 30.0, 285.0),
    ("remove liquid", "lean", "SRK", 50.0, 320.0),
]


def props(p):
    d = dataclasses.asdict(p)
    d.pop("molar_mass")
    return d


def ask(t, svc, req):
    """run one request and compare it with the engine's formulas"""
    kind, c, eos, *n = req
    x = fj.mixture(COMPS[c])
    fm = model(c, eos)
    if kind == "pt":
        r = svc.flash_pt(fm, n[0], n[1])
        t.same(props(r), fj.expected_pt(x, eos, n[0], n[1]), f"{req}", rel=1e-10)
        t.same(r.molar_mass, M_real(c), f"{req} molar mass")
    elif kind == "ph":
        e = fj.expected_ph(x, eos, n[0], n[1], n[2])
        try:
            r = svc.flash_ph(fm, n[0], n[1], n[2])
        except fj.Py4JError:
            raise
        except Exception as err:
            t.check(e is None, f"{req} failed: {err}")
            return "failed"
        if e is None:
            # a state found with another starting point may be reused, but it must be the right state
            e = fj.expected_ph(x, eos, n[0], n[1], fj.temperature_for(x, fj.GERG if "GERG" in eos else fj.BASE[eos], n[0], n[1] * fj.mass(x)))
        t.same(props(r), e, f"{req}", rel=1e-10)
    elif kind == "std->mass":
        t.same(svc.standard_rate_to_mass_rate(fm, n[0]), n[0] * fj.expected_standard_density(x, eos) / 24, f"{req}", rel=1e-10)
    elif kind == "mass->std":
        t.same(svc.mass_rate_to_standard_rate(fm, n[0]), n[0] * 24 / fj.expected_standard_density(x, eos), f"{req}", rel=1e-10)
    elif kind == "stream std":
        s = svc.create_stream_from_standard_rate(fm, n[0], n[1], n[2])
        t.same(s.mass_rate_kg_per_h, n[2] * fj.expected_standard_density(x, eos) / 24, f"{req}", rel=1e-10)
        t.same(props(s.fluid.properties), fj.expected_pt(x, eos, n[0], n[1]), f"{req}", rel=1e-10)
        t.check(s.fluid.fluid_model == fm, f"{req}: fluid model")
    elif kind == "stream mass":
        s = svc.create_stream_from_mass_rate(fm, n[0], n[1], n[2])
        t.same(s.mass_rate_kg_per_h, n[2], f"{req}")
        t.same(props(s.fluid.properties), fj.expected_pt(x, eos, n[0], n[1]), f"{req}", rel=1e-10)
    elif kind == "remove liquid":
        f = svc.create_fluid(fm, n[0], n[1])
        t.same(props(f.properties), fj.expected_pt(x, eos, n[0], n[1]), f"{req} before", rel=1e-10)
        g = svc.remove_liquid(f)
        t.check(isinstance(g, Fluid), f"{req}: {type(g)}")
        if fj.liquid(x, fj.BASE[eos], n[0], n[1]) == 0:
            t.check(g == f, f"{req}: a gas is returned unchanged")
        else:
            y = fj.gas_phase(x, fj.BASE[eos], n[0], n[1])
            t.same({k: v for k, v in g.composition.items() if v > 0}, {k: y[fj.TO_NEQSIM.get(k, k)] for k in COMPS[c]}, f"{req}: gas composition", rel=1e-9)
            t.same(props(g.properties), fj.expected_pt(y, eos, n[0], n[1]), f"{req}: gas", rel=1e-9)
    return "ok"


def close_engine():
    try:
        java_service.NeqsimService.instance().shutdown()
    except ProgrammingError:
        pass  # no engine


class Env:
    def __init__(self):
        self.world = fj.World()
        self.installed = fj.Installed(self.world)

    def __enter__(self):
        self.installed.__enter__()
        close_engine()
        java_service.NeqsimService.reset_py4j_config()
        NeqSimFluidService.reset_instance()
        CacheService._caches.clear()
        return self

    def engine(self):
        return java_service.NeqsimService.factory(use_jpype=False).initialize()

    def __exit__(self, *a):
        try:
            close_engine()
        finally:
            self.installed.__exit__(*a)
            NeqSimFluidService.reset_instance()
            CacheService._caches.clear()


SIZES = [(1, 1), (2, 1), (1, 2), (0, 0), (0, 2), (2, 0), (512, 100_000)]


def run(ck):
    ck.bounds.update(history_length=ck.q(3, 4), requests=len(REQUESTS), cache_sizes=len(SIZES), compositions=len(COMPS), eos=4)
    ck.assumptions += [
        "the engine is a stand-in with closed formulas implementing the Java interface the wrapper uses (the real jar is not available)",
        "requests that differ by less than the documented rounding of cache keys may share an answer",
    ]

    def histories(t, requests=REQUESTS, n=3):
        sizes = t.pick("cache sizes", SIZES)
        with Env() as env, env.engine():
            NeqSimFluidService.configure(CacheConfig(*sizes))
            svc = NeqSimFluidService.instance()
            outs = []
            for i in range(n):
                outs.append(ask(t, svc, t.pick(f"request{i}", requests)))
                t.step()
            st = get_fluid_service_stats()
            t.check(st["reference_fluid"]["max_size"] == sizes[0] and st["fluid_service_flash"]["max_size"] == sizes[1], f"cache sizes {st}")
            t.check(st["reference_fluid"]["size"] <= sizes[0] and st["fluid_service_flash"]["size"] <= sizes[1], f"cache sizes {st}")
            t.state(sizes, st["reference_fluid"]["size"], st["fluid_service_flash"]["size"], outs)
            t.outcome((sizes, tuple(outs)))

    ck.explore("request histories", histories)
    if not ck.quick:
        few = [r for i, r in enumerate(REQUESTS) if i in (0, 2, 4, 9, 11, 16, 20, 21, 22, 25, 28)]
        ck.explore("longer histories", lambda t: histories(t, few, 5))

    # ------------------------------------------------ configuration, reset, engine restarts
    PROBES = [REQUESTS[0], REQUESTS[1], REQUESTS[16], REQUESTS[25]]
    OPS = ["configure small", "configure big", "instance", "construct", "ask0", "ask1", "ask2", "reset", "full reset", "restart engine", "keep engine exit", "ask without engine"]

    def configuration(t):
        with Env() as env:
            env.engine()
            exists, configured, registry, svc = False, None, None, None
            for i in range(ck.q(4, 5)):
                op = t.pick(f"op{i}", OPS)
                t.step()
                if op.startswith("configure"):
                    cfg = CacheConfig(1, 2) if op.endswith("small") else CacheConfig(7, 9)
                    if exists:
                        t.raises(lambda: NeqSimFluidService.configure(cfg), "configuring after first use", RuntimeError)
                    else:
                        NeqSimFluidService.configure(cfg)
                        configured = cfg
                elif op in ("instance", "construct"):
                    s = NeqSimFluidService.instance() if op == "instance" else NeqSimFluidService()
                    t.check(not exists or s is svc, "a second service exists")
                    svc = s
                elif op.startswith("ask") and op[-1].isdigit():
                    svc = NeqSimFluidService.instance()
                    ask(t, svc, PROBES[int(op[-1])])
                elif op == "reset":
                    old = svc
                    NeqSimFluidService.reset_instance()
                    exists, configured, svc = False, None, None
                    if old is not None:
                        ask(t, old, PROBES[3])  # an old handle keeps giving right answers
                elif op == "full reset":
                    NeqSimFluidService.reset_instance()
                    CacheService._caches.clear()
                    exists, configured, svc, registry = False, None, None, None
                elif op == "restart engine":
                    with java_service.NeqsimService.instance():
                        pass
                    t.check(not env.world.running(), "engine still running after its session")
                    st = CacheService.get_all_stats()
                    t.check(all(s["size"] == 0 for s in st.values()), f"cached engine objects survive the session: {st}")
                    env.engine()
                elif op == "keep engine exit":
                    java_service.NeqsimService.instance().shutdown()
                    env.engine()
                elif op == "ask without engine":
                    java_service.NeqsimService.instance().shutdown()
                    s = NeqSimFluidService.instance()
                    err = t.raises(lambda: s.flash_pt(model("lean", "SRK"), 50.0, 320.0), "a calculation without a running engine")
                    t.check("nitialized" in str(err), f"unclear error without an engine: {err!r}")
                    env.engine()
                    svc = s
                if svc is not None and not exists:
                    exists = True
                    want = configured or CacheConfig()
                    registry = registry or (want.reference_fluid_max_size, want.flash_max_size)
                if exists:
                    st = get_fluid_service_stats()
                    got = (st["reference_fluid"]["max_size"], st["fluid_service_flash"]["max_size"])
                    t.check(got == registry, f"cache sizes {got}, expected {registry} after {op}")
                t.state(exists, configured, registry)
            for p in PROBES:
                ask(t, NeqSimFluidService.instance(), p)
            t.outcome(exists)

    ck.explore("configuration and engine restarts", configuration)

    # ------------------------------------------------ engine failures
    def faults(t):
        sizes = t.pick("cache sizes", SIZES[:4] if not ck.quick else [SIZES[0], SIZES[6]])
        reqs = [REQUESTS[i] for i in (0, 9, 16, 20, 24, 26, 28)]
        with Env() as env, env.engine():
            NeqSimFluidService.configure(CacheConfig(*sizes))
            svc = NeqSimFluidService.instance()
            before = t.pick("before", [None, *reqs])
            if before:
                ask(t, svc, before)
            session = env.world.started[-1].session
            req = t.pick("request", reqs)
            k = t.pick("fails at engine call", list(range(1, 61)))
            session.fail_at = session.calls + k
            try:
                ask(t, svc, req)
                hit = session.calls >= session.fail_at
                if not hit:
                    t.outcome("not reached")
                    return
                t.outcome("tolerated")
            except Violation as v:
                if session.calls < session.fail_at or "failed" not in v.message:
                    raise  # a wrong number; a reported failure is what we want
                t.outcome("reported")
            except Exception as e:
                t.outcome(type(e).__name__)
            session.fail_at = None
            t.step()
            for p in (req, *PROBES[:2], before or req, req):
                ask(t, svc, p)

    ck.explore("engine failures", faults)
