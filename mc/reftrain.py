"""Reference model of a compressor train with a perfect gas: plain forward calculation with an own chart interpolation."""

from __future__ import annotations

from mc.checks.c16 import Ref
from mc.gas import gas

# speed -> (Am3/h, J/kg, efficiency)
A = {
    7500.0: [(3000.0, 82000.0, 0.72), (4000.0, 79000.0, 0.75), (6000.0, 64000.0, 0.74)],
    9000.0: [(3600.0, 120000.0, 0.72), (5000.0, 112000.0, 0.76), (7200.0, 90000.0, 0.74)],
    10500.0: [(4000.0, 160000.0, 0.70), (6000.0, 148000.0, 0.75), (8200.0, 115000.0, 0.72)],
}


def scaled(chart, q, h=1.0, s=1.0, e=1.0):
    return {v * s: [(a * q, b * h, c * e) for a, b, c in pts] for v, pts in chart.items()}


CHARTS = {
    "A": A,
    "B": scaled(A, 0.55, 0.95, 1.0, 0.98),  # fits after A
    "C": scaled(A, 0.32, 0.9, 1.0, 0.96),  # fits after B
    "wide B": scaled(A, 0.8, 0.9, 16 / 15),  # too large after A, shifted speeds: recirculates
    "small B": scaled(A, 0.42, 1.1, 1.0),  # too small after A: stage 2 hits its stone wall first
    "A1": {9000.0: A[9000.0]},
    "B1": {9000.0: scaled(A, 0.55, 0.95)[9000.0]},
    "wide B1": {9000.0: scaled(A, 0.8, 0.9)[9000.0]},
    "small B1": {9000.0: scaled(A, 0.42, 1.1)[9000.0]},
    "C1": {9000.0: scaled(A, 0.32, 0.9)[9000.0]},
}
_REF: dict = {}


def chart(name) -> Ref:
    if name not in _REF:
        _REF[name] = Ref(CHARTS[name], None)
    return _REF[name]


class Stage:
    def __init__(self, chart_name, T=303.15, dp=0.0):
        self.name, self.T, self.dp = chart_name, T, dp
        self.chart = chart(chart_name)


class Point:
    """state of one stage"""

    __slots__ = ("p1", "T1", "m", "q", "m_asv", "q_asv", "head", "eff", "p2", "T2", "power", "over", "lo", "hi")


def run_stage(st, g, p, m, speed, extra=None, fraction=None, m_asv=None):
    """extra: recirculated mass; fraction of the available capacity; or the total mass through the compressor"""
    x = Point()
    x.p1, x.T1, x.m = p - st.dp, st.T, m
    if x.p1 <= 0:
        return None
    rho = g.rho(x.p1, x.T1)
    x.q = m / rho
    x.lo, x.hi = st.chart.flow_range(speed)
    q = x.q
    if m_asv is not None:
        q = m_asv / rho
    if extra:
        q += extra / rho
    if fraction is not None:
        q += fraction * max(0.0, x.hi - q)
    if m_asv is None:
        q = max(q, x.lo)
    x.q_asv, x.m_asv = q, q * rho
    x.over = q / x.hi - 1
    if x.over > 1e-6:
        x.head = x.eff = x.p2 = x.T2 = x.power = float("nan")
        return x
    x.head, x.eff = st.chart.at_speed(speed, min(max(q, x.lo), x.hi))
    x.p2, x.T2 = g.compress(x.p1, x.T1, x.head, x.eff)
    x.power = x.m_asv * x.head / x.eff / 3600 / 1e6
    return x


def run_train(stages, fm, p, m, speed, extra=0.0, fraction=None, gains=None, comps=None):
    """list of stage points, or None when some stage is over its capacity; gains: mass entering (+) or leaving (-) ahead of a stage"""
    g = gas(fm)
    out = []
    for i, st in enumerate(stages):
        m += (gains or {}).get(i, 0.0)
        g = (comps or {}).get(i, g)
        x = run_stage(st, g, p, m, speed, extra, fraction)
        if x is None or x.over > 1e-6:
            return None
        out.append(x)
        p = x.p2
    return out


def speed_range(stages):
    return max(min(s.chart.speeds) for s in stages), min(max(s.chart.speeds) for s in stages)
