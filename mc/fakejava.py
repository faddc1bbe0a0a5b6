"""A deterministic stand-in for the NeqSim engine behind Py4J / JPype (the jar is not available offline).

It implements the Java interface that ecalc_neqsim_wrapper uses, with simple closed formulas that depend on composition, equation
of state, pressure and temperature, and with the engine's awkward habits: systems are mutable, properties must be initialised after
a flash, objects die with their session, PH flashes only converge near their starting temperature.  ``expected_*`` evaluates the same
formulas directly (the oracle)."""

from __future__ import annotations

from py4j.protocol import Py4JError, Py4JNetworkError

R = 8.31446261815324
NAMES = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i-butane", "n-butane", "i-pentane", "n-pentane", "n-hexane"]
M = dict(zip(NAMES, [0.018, 0.028, 0.044, 0.016, 0.030, 0.044, 0.058, 0.0581, 0.072, 0.0721, 0.086]))
CP = {n: 35.0 + 9.0 * i for i, n in enumerate(NAMES)}
A = {n: 0.02 * (1 + 0.3 * i) for i, n in enumerate(NAMES)}
HEAVY = "n-hexane"


def norm(x):
    s = sum(x.values())
    return {k: v / s for k, v in x.items() if v > 0}


def mass(x):
    return sum(v * M[k] for k, v in x.items())


def cp(x):
    return sum(v * CP[k] for k, v in x.items())


def z(x, eos, p, T):
    return 1 - sum(v * A[k] for k, v in x.items()) * (1 + 0.15 * eos) * p / T


def liquid(x, eos, p, T):
    return x.get(HEAVY, 0.0) * min(1.0, max(0.0, (310 + 7 * eos - T) / 60)) * min(1.0, 0.5 + p / 100)


def density(x, eos, p, T):
    return p * 1e5 * mass(x) / (z(x, eos, p, T) * R * T) * (1 + 3 * liquid(x, eos, p, T))


def enthalpy_mol(x, eos, p, T):
    return cp(x) * (T - 250.0) - (2.0 + eos) * p


def temperature_for(x, eos, p, h_mol):
    return 250.0 + (h_mol + (2.0 + eos) * p) / cp(x)


def gas_phase(x, eos, p, T):
    liq = liquid(x, eos, p, T)
    y = dict(x)
    if liq > 0:
        y[HEAVY] = x[HEAVY] - liq
    return norm(y)


class Session:
    """one running engine"""

    def __init__(self, log=None):
        self.alive = True
        self.calls = 0
        self.fail_at = None

    def touch(self):
        if not self.alive:
            raise Py4JNetworkError("Answer from Java side is empty: the engine is gone")
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise Py4JError("injected engine failure")


class System:
    def __init__(self, session, eos, T, p):
        self.s, self.eos, self.T, self.p = session, eos, T, p
        self.x = {}
        self.rate = self.rule = None
        self.flashed = self.ready = False

    # -- building
    def addComponent(self, name, value):
        self.s.touch()
        self.x[name] = self.x.get(name, 0.0) + value

    def setTotalFlowRate(self, v, unit):
        self.s.touch()
        assert unit == "kg/hr"
        self.rate = v

    def setMixingRule(self, r):
        self.s.touch()
        self.rule = r

    def clone(self):
        self.s.touch()
        c = System(self.s, self.eos, self.T, self.p)
        c.x, c.rate, c.rule, c.flashed, c.ready = dict(self.x), self.rate, self.rule, self.flashed, self.ready
        return c

    def setPressure(self, p, unit):
        self.s.touch()
        assert unit == "bara"
        self.p = p
        self.flashed = self.ready = False

    def setTemperature(self, T, unit):
        self.s.touch()
        assert unit == "K"
        self.T = T
        self.flashed = self.ready = False

    def init(self, level):
        self.s.touch()
        assert self.flashed, "init before flash"

    def initProperties(self):
        self.s.touch()
        assert self.flashed
        self.ready = True

    # -- reading
    def _read(self):
        self.s.touch()
        if not self.ready or self.rule != 2 or self.rate is None:
            raise Py4JError("properties are not initialised")
        return norm(self.x)

    def getDensity(self, unit):
        assert unit == "kg/m3"
        return density(self._read(), self.eos, self.p, self.T)

    def getMolarMass(self):
        self.s.touch()
        return mass(norm(self.x))

    def getZ(self):
        return z(self._read(), self.eos, self.p, self.T)

    def getEnthalpy(self, unit):
        assert unit == "J/kg"
        x = self._read()
        return enthalpy_mol(x, self.eos, self.p, self.T) / mass(x)

    def getGamma2(self):
        x = self._read()
        return cp(x) / (cp(x) - R)

    def getTemperature(self, unit):
        assert unit == "K"
        self.s.touch()
        return self.T

    def getPressure(self, unit):
        assert unit == "bara"
        self.s.touch()
        return self.p

    def getVolume(self):
        x = self._read()
        return mass(x) / density(x, self.eos, self.p, self.T)

    def getMolarComposition(self):
        self.s.touch()
        return list(norm(self.x).values())

    def getComponentNames(self):
        self.s.touch()
        return list(norm(self.x))

    def hasPhaseType(self, t):
        return liquid(self._read(), self.eos, self.p, self.T) < 1.0 if t == "gas" else False

    def getPhaseNumberOfPhase(self, t):
        self.s.touch()
        return 0

    def getMoleFraction(self, n):
        return 1.0 - liquid(self._read(), self.eos, self.p, self.T)

    def phaseToSystem(self, t):
        x = self._read()
        c = System(self.s, self.eos, self.T, self.p)
        c.x, c.rate, c.rule = gas_phase(x, self.eos, self.p, self.T), self.rate, self.rule
        return c

    def getTotalNumberOfMoles(self):
        self.s.touch()
        return self.rate / 3600.0 / mass(norm(self.x))

    def getPhase(self, n):
        self._read()
        return Gerg(self)

    def display(self):
        pass


GERG = 4  # the index used for the correlation of GERG properties


class Gerg:
    def __init__(self, system):
        self.y = system

    def getProperties_GERG2008(self):
        x = self.y._read()
        r = [0.0] * 17
        r[1] = z(x, GERG, self.y.p, self.y.T)
        r[7] = enthalpy_mol(x, GERG, self.y.p, self.y.T)
        r[10] = cp(x) * 1.01
        return r

    def getDensity_GERG2008(self):
        return density(self.y._read(), GERG, self.y.p, self.y.T)

    def getMolarMass(self):
        return mass(norm(self.y.x))


MAX_PH_STEP = 150.0  # the engine's PH iteration only converges within this distance from where it starts


class Operations:
    def __init__(self, session, system):
        session.touch()
        self.s, self.y = session, system

    def TPflash(self):
        self.s.touch()
        if not (self.y.p > 0 and self.y.T > 0):
            raise Py4JError("flash outside the physical range")
        self.y.flashed = True

    def _go(self, T):
        d = T - self.y.T
        if abs(d) > MAX_PH_STEP:
            T = self.y.T + (MAX_PH_STEP if d > 0 else -MAX_PH_STEP)
        if T <= 0 or self.y.p <= 0:
            raise Py4JError("flash did not converge")
        self.y.T = T
        self.y.flashed = True

    def PHflash(self, h, unit):
        self.s.touch()
        assert unit == "J/kg"
        x = norm(self.y.x)
        self._go(temperature_for(x, self.y.eos, self.y.p, h * mass(x)))

    def PHflashGERG2008(self, h_total):
        self.s.touch()
        x = norm(self.y.x)
        moles = self.y.rate / 3600.0 / mass(x)
        self._go(temperature_for(x, GERG, self.y.p, h_total / moles))


class NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def module(session):
    """what get_neqsim_module() returns"""
    return NS(
        thermo=NS(system=NS(SystemSrkEos=lambda T, p: System(session, 1, T, p), SystemPrEos=lambda T, p: System(session, 2, T, p))),
        thermodynamicoperations=NS(ThermodynamicOperations=lambda s: Operations(session, s)),
    )


# ------------------------------------------------------------------ oracle
BASE = {"SRK": 1, "PR": 2, "GERG_SRK": 1, "GERG_PR": 2}
TO_NEQSIM = {"i_butane": "i-butane", "n_butane": "n-butane", "i_pentane": "i-pentane", "n_pentane": "n-pentane", "n_hexane": "n-hexane"}
STD_T, STD_P = 288.15, 1.01325


def mixture(comp: dict):
    return norm({TO_NEQSIM.get(k, k): v for k, v in comp.items()})


def expected_standard_density(x, eos):
    base, prop = BASE[eos], (GERG if "GERG" in eos else BASE[eos])
    if 1 - liquid(x, base, STD_P, STD_T) < 0.9999:
        x = gas_phase(x, base, STD_P, STD_T)
    return density(x, prop, STD_P, STD_T)


def expected_pt(x, eos, p, T):
    base, prop = BASE[eos], (GERG if "GERG" in eos else BASE[eos])
    c = cp(x) * (1.01 if prop == GERG else 1.0)
    k = c / (c - (8.3144621 if prop == GERG else R))
    return {
        "temperature_kelvin": T,
        "pressure_bara": p,
        "density": density(x, prop, p, T),
        "enthalpy_joule_per_kg": enthalpy_mol(x, prop, p, T) / mass(x),
        "z": z(x, prop, p, T),
        "kappa": k,
        "vapor_fraction_molar": 1 - liquid(x, base, p, T),
        "standard_density": expected_standard_density(x, eos),
    }


def expected_ph(x, eos, p, h, guess=None):
    """None when the engine cannot get there from its starting temperature"""
    prop = GERG if "GERG" in eos else BASE[eos]
    T = temperature_for(x, prop, p, h * mass(x))
    start = STD_T if guess is None else guess
    if T <= 0 or abs(T - start) > MAX_PH_STEP:
        return None
    return expected_pt(x, eos, p, T)


# ------------------------------------------------------------------ processes
class FakeGateway:
    def __init__(self, world, **kw):
        self.world = world
        self.session = Session()
        self.options = kw
        self.java_process = NS(pid=1000 + len(world.started))
        self.gateway_parameters = NS(port=25333 + len(world.started))
        self.jvm = NS(neqsim=module(self.session))
        self.closed = 0

    def shutdown(self):
        self.closed += 1
        self.world.shutdowns.append(self)
        if self.world.fail_close:
            self.world.fail_close -= 1
            self.session.alive = False  # a process that cannot be talked to any more
            raise Py4JNetworkError("an error occurred while trying to connect to the Java server")
        self.session.alive = False


class World:
    """records every engine process"""

    def __init__(self):
        self.started: list[FakeGateway] = []
        self.shutdowns: list[FakeGateway] = []
        self.fail_launch = None
        self.fail_close = 0

    def launch(self, *a, **kw):
        if self.fail_launch is not None:
            e, self.fail_launch = self.fail_launch, None
            raise e
        g = FakeGateway(self, **kw)
        self.started.append(g)
        return g

    def running(self):
        return [g for g in self.started if g.session.alive]


class Installed:
    """py4j's launcher starts stand-ins; JPype's jneqsim is a stand-in too"""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        import sys

        from py4j.java_gateway import JavaGateway

        self.saved = JavaGateway.__dict__["launch_gateway"]
        JavaGateway.launch_gateway = staticmethod(self.world.launch)
        self.jn = sys.modules.get("jneqsim")
        self.world.jpype = Session()
        sys.modules["jneqsim"] = NS(neqsim=module(self.world.jpype))
        return self

    def __exit__(self, *a):
        import sys

        from py4j.java_gateway import JavaGateway

        JavaGateway.launch_gateway = self.saved
        if self.jn is None:
            sys.modules.pop("jneqsim", None)
        else:
            sys.modules["jneqsim"] = self.jn
