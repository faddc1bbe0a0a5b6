"""An ideal gas behind the code's own FluidService interface, and the same formulas for the oracle.

Every composition is a perfect gas with constant heat capacity; n-hexane may condense (simple rule) when a service with
``condensing=True`` is used.  No engine, no cache: closed formulas only."""

from __future__ import annotations

from libecalc.process.fluid_stream.fluid import Fluid
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from libecalc.process.fluid_stream.fluid_properties import FluidProperties
from libecalc.process.fluid_stream.fluid_service import FluidService
from libecalc.process.fluid_stream.fluid_stream import FluidStream

R = 8.31446261815324
T_STD, P_STD = 288.15, 1.01325
# the molecular weights the code uses for mixing, so that mass and mole balances are exact
M = {"water": 0.01801534, "nitrogen": 0.02801340, "CO2": 0.04400995, "methane": 0.01604246, "ethane": 0.03006904, "propane": 0.04409562,
     "i_butane": 0.05812220, "n_butane": 0.05812220, "i_pentane": 0.07214878, "n_pentane": 0.07214878, "n_hexane": 0.08617536}  # fmt: skip
CP = {n: 30.0 + 6.0 * i for i, n in enumerate(M)}

LIGHT = FluidModel(eos_model=EoSModel.SRK, composition=FluidComposition(methane=0.9, ethane=0.1))
HEAVY = FluidModel(eos_model=EoSModel.SRK, composition=FluidComposition(methane=0.6, ethane=0.2, propane=0.1, CO2=0.1))
DRY = FluidModel(eos_model=EoSModel.SRK, composition=FluidComposition(methane=1.0))
WET = FluidModel(eos_model=EoSModel.SRK, composition=FluidComposition(methane=0.8, ethane=0.1, n_hexane=0.1))


def fractions(fm):
    d = {k: float(getattr(fm.composition, k)) for k in M}
    s = sum(d.values())
    return {k: v / s for k, v in d.items() if v > 0}


class Gas:
    """constants of one composition"""

    def __init__(self, x):
        self.x = x
        self.M = sum(v * M[k] for k, v in x.items())
        self.cp_mol = sum(v * CP[k] for k, v in x.items())
        self.cp = self.cp_mol / self.M
        self.kappa = self.cp_mol / (self.cp_mol - R)
        self.rho_std = P_STD * 1e5 * self.M / (R * T_STD)

    def rho(self, p, T):
        return p * 1e5 * self.M / (R * T)

    def h(self, T):
        return self.cp * (T - 250.0)

    def T(self, h):
        return h / self.cp + 250.0

    def compress(self, p1, T1, head, eff):
        """polytropic compression of a perfect gas: outlet pressure and temperature"""
        a = (self.kappa - 1) / (self.kappa * eff)  # (n-1)/n
        r = (1 + a * head * self.M / (R * T1)) ** (1 / a)
        return p1 * r, T1 + head / eff / self.cp


_GAS: dict = {}


def gas(fm) -> Gas:
    g = _GAS.get(fm.composition)
    if g is None:
        g = _GAS[fm.composition] = Gas(fractions(fm))
    return g


def liquid_fraction(g: Gas, T):
    """molar fraction of the feed that is liquid (n-hexane only)"""
    return g.x.get("n_hexane", 0.0) * min(1.0, max(0.0, (330.0 - T) / 60.0))


class IdealGas(FluidService):
    def __init__(self, condensing=False):
        self.condensing = condensing
        self.calls = 0

    def _props(self, fm, p, T):
        self.calls += 1
        if not (p > 0 and T > 0):
            raise ValueError(f"no state at p={p}, T={T}")
        g = gas(fm)
        v = 1.0 - (liquid_fraction(g, T) if self.condensing else 0.0)
        return FluidProperties(
            temperature_kelvin=T, pressure_bara=p, density=g.rho(p, T), enthalpy_joule_per_kg=g.h(T), z=1.0, kappa=g.kappa,
            vapor_fraction_molar=v, molar_mass=g.M, standard_density=g.rho_std,
        )  # fmt: skip

    def flash_pt(self, fluid_model, pressure_bara, temperature_kelvin):
        return self._props(fluid_model, float(pressure_bara), float(temperature_kelvin))

    def flash_ph(self, fluid_model, pressure_bara, target_enthalpy_joule_per_kg, temperature_guess_kelvin=None):
        return self._props(fluid_model, float(pressure_bara), gas(fluid_model).T(float(target_enthalpy_joule_per_kg)))

    def create_fluid(self, fluid_model, pressure_bara, temperature_kelvin):
        return Fluid(fluid_model=fluid_model, properties=self.flash_pt(fluid_model, pressure_bara, temperature_kelvin))

    def remove_liquid(self, fluid):
        g = gas(fluid.fluid_model)
        liq = liquid_fraction(g, fluid.temperature_kelvin) if self.condensing else 0.0
        if liq == 0:
            return fluid
        y = dict(g.x)
        y["n_hexane"] -= liq
        s = sum(y.values())
        fm = FluidModel(eos_model=fluid.eos_model, composition=FluidComposition(**{k: v / s for k, v in y.items() if v > 0}))
        props = self._props(fm, fluid.pressure_bara, fluid.temperature_kelvin)
        import dataclasses

        return Fluid(fluid_model=fm, properties=dataclasses.replace(props, vapor_fraction_molar=1.0))

    def create_stream_from_standard_rate(self, fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day):
        return FluidStream(
            fluid=self.create_fluid(fluid_model, pressure_bara, temperature_kelvin),
            mass_rate_kg_per_h=self.standard_rate_to_mass_rate(fluid_model, standard_rate_m3_per_day),
        )

    def create_stream_from_mass_rate(self, fluid_model, pressure_bara, temperature_kelvin, mass_rate_kg_per_h):
        return FluidStream(fluid=self.create_fluid(fluid_model, pressure_bara, temperature_kelvin), mass_rate_kg_per_h=mass_rate_kg_per_h)

    def standard_rate_to_mass_rate(self, fluid_model, standard_rate_m3_per_day):
        return standard_rate_m3_per_day * gas(fluid_model).rho_std / 24

    def mass_rate_to_standard_rate(self, fluid_model, mass_rate_kg_per_h):
        return mass_rate_kg_per_h / gas(fluid_model).rho_std * 24
