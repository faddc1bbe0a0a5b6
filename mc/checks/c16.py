"""C16: operating envelopes of performance charts.  For families of charts (single speed, two and three curves, straight and bent control and
stone-wall lines, vertical ends, control margins, generic charts), all orders of curves and points, and a fine grid of operating points, the real
chart's classification, corrections and interpolation are compared with plain polygon geometry and with an own fan interpolation."""

import functools
import itertools
import math

import numpy as np

from libecalc.domain.process.value_objects.chart import ChartCurve
from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag as F
from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator
from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.presentation.yaml.yaml_entities import MemoryResource
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart import YamlUnits

from mc.core import Prune, close

# speed -> (rate, head, efficiency); most slopes are binary fractions, so that the expected position relative to a boundary is exact
A_MIN = [(64.0, 112.0, 0.5), (128.0, 96.0, 0.75), (192.0, 64.0, 0.625)]
A_MAX = [(128.0, 368.0, 0.5625), (256.0, 336.0, 0.875), (384.0, 192.0, 0.6875)]
CHARTS = {
    "two curves": {1000.0: A_MIN, 2000.0: A_MAX},
    "two-point curves": {1000.0: [(64.0, 96.0, 0.5), (192.0, 64.0, 0.75)], 2000.0: [(128.0, 352.0, 0.75), (384.0, 224.0, 0.5)]},
    "three curves": {1000.0: A_MIN, 1500.0: [(96.0, 240.0, 0.5), (192.0, 216.0, 1.0), (288.0, 128.0, 0.5)], 2000.0: A_MAX},
    "three uneven speeds": {1000.0: A_MIN, 1250.0: [(80.0, 176.0, 0.5), (160.0, 156.0, 0.75), (240.0, 96.0, 0.5)], 2000.0: A_MAX},
    "three curves, bent": {1000.0: A_MIN, 1500.0: [(104.0, 232.0, 0.5), (192.0, 200.0, 0.75), (272.0, 136.0, 0.25)], 2000.0: A_MAX},
    "vertical stone wall": {1000.0: [(64.0, 112.0, 0.5), (192.0, 64.0, 0.75)], 2000.0: [(128.0, 368.0, 0.5), (192.0, 240.0, 0.75)]},
    "vertical control line": {1000.0: [(64.0, 112.0, 0.5), (192.0, 64.0, 0.75)], 2000.0: [(64.0, 368.0, 0.5), (320.0, 192.0, 0.75)]},
    "separate flow ranges": {1000.0: [(64.0, 112.0, 0.5), (128.0, 64.0, 0.75)], 2000.0: [(192.0, 368.0, 0.5), (320.0, 240.0, 0.75)]},
    "single speed": {1000.0: A_MIN},
    "single speed, two points": {1000.0: [(64.0, 112.0, 1.0), (192.0, 64.0, 1.0)]},
    "four curves": {
        1000.0: A_MIN,
        1250.0: [(80.0, 176.0, 0.5), (160.0, 156.0, 0.75), (240.0, 96.0, 0.5)],
        1500.0: [(96.0, 240.0, 0.5), (192.0, 216.0, 1.0), (288.0, 128.0, 0.5)],
        2000.0: A_MAX,
    },
}
BENT = {"three curves, bent"}
MARGINS = [None, 0.0, 0.25, 0.125]


def data(curves, margin=None):
    return UserDefinedChartData(
        curves=[ChartCurve([p[0] for p in pts], [p[1] for p in pts], [p[2] for p in pts], s) for s, pts in curves], control_margin=margin
    )


def lin(xs, ys, x):
    """piecewise linear through (xs, ys), xs ascending, constant outside"""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
        if x0 <= x <= x1:
            return y0 if x0 == x1 else y0 + (y1 - y0) * ((x - x0) / (x1 - x0))
    raise AssertionError


class Ref:
    """the chart as plain geometry"""

    def __init__(self, chart, margin):
        self.curves = []
        for s in sorted(chart):
            pts = sorted(chart[s])
            if margin:
                q0 = pts[0][0] + margin * (pts[-1][0] - pts[0][0])
                at = lambda i: lin([p[0] for p in pts], [p[i] for p in pts], q0)  # noqa: E731, B023
                pts = [(q0, at(1), at(2))] + [p for p in pts if p[0] > q0]
            self.curves.append((s, pts))
        self.lo, self.hi = self.curves[0][1], self.curves[-1][1]
        self.top, self.bottom = self.hi[0][1], self.lo[-1][1]
        self.speeds = [s for s, _ in self.curves]
        ring = [*self.lo, *reversed(self.hi)] if len(self.curves) > 1 else list(self.lo)
        self.ring = [(p[0], p[1]) for p in ring]

    def side(self, q, h):
        """+1 strictly inside the region between the outermost curves, 0 on its boundary, -1 outside"""
        pts = self.ring
        n = len(pts)
        edges = [(pts[i], pts[(i + 1) % n]) for i in range(n if len(self.curves) > 1 else n - 1)]
        for (x0, y0), (x1, y1) in edges:
            cross = (x1 - x0) * (h - y0) - (y1 - y0) * (q - x0)
            if abs(cross) <= 1e-9 * (abs(x1 - x0) + 1) * (abs(y1 - y0) + 1) and min(x0, x1) - 1e-9 <= q <= max(x0, x1) + 1e-9 and min(y0, y1) - 1e-9 <= h <= max(y0, y1) + 1e-9:
                return 0
        if len(self.curves) == 1:
            return -1
        odd = False
        for (x0, y0), (x1, y1) in edges:
            if (y0 > h) != (y1 > h) and q < x0 + (x1 - x0) * (h - y0) / (y1 - y0):
                odd = not odd
        return 1 if odd else -1

    # boundaries as functions of head or flow
    def control(self, h):
        (q0, h0), (q1, h1) = self.lo[0][:2], self.hi[0][:2]
        return lin([h0, h1], [q0, q1], h) if h1 > h0 else q0

    def inverse(self, pts, h):
        return lin([p[1] for p in reversed(pts)], [p[0] for p in reversed(pts)], h)

    def min_rate(self, h, choke):
        return self.control(h) if choke or h >= self.lo[0][1] else self.inverse(self.lo, h)

    def max_rate(self, h, choke):
        if choke or h >= self.hi[-1][1]:
            return self.inverse(self.hi, h)
        (q0, h0), (q1, h1) = self.lo[-1][:2], self.hi[-1][:2]
        return lin([h0, h1], [q0, q1], h)

    def max_head(self, q):
        return lin([p[0] for p in self.hi], [p[1] for p in self.hi], q)

    def min_head(self, q):
        pts = list(self.lo)
        if self.hi[-1][0] > self.lo[-1][0]:
            pts.append(self.hi[-1])
        return lin([p[0] for p in pts], [p[1] for p in pts], q)

    # the fan of speeds
    def between(self, s):
        for (s0, a), (s1, b) in zip(self.curves, self.curves[1:]):
            if s0 <= s <= s1:
                return a, b, (s - s0) / (s1 - s0)
        return self.curves[0][1], self.curves[0][1], 0.0

    def flow_range(self, s):
        a, b, w = self.between(s)
        return a[0][0] + w * (b[0][0] - a[0][0]), a[-1][0] + w * (b[-1][0] - a[-1][0])

    def at_speed(self, s, q):
        """head and efficiency at a flow inside the range of the speed"""
        a, b, w = self.between(s)
        lo, hi = self.flow_range(s)
        f = (q - lo) / (hi - lo)
        out = []
        for i in (1, 2):
            va, vb = (lin([p[0] for p in c], [p[i] for p in c], c[0][0] + f * (c[-1][0] - c[0][0])) for c in (a, b))
            out.append(va + w * (vb - va))
        return tuple(out)


@functools.lru_cache(None)
def ref(name, margin):
    return Ref(CHARTS[name], margin)


def tol(a, b):
    return 1e-9 * max(1.0, abs(a), abs(b))


def below(a, b):
    """a < b; None when they differ by rounding only (but exactly equal numbers are not 'below')"""
    return False if a == b else (None if abs(a - b) <= tol(a, b) else a < b)


def curve_orders(n):
    return list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n))), (2, 0, 3, 1), (1, 3, 0, 2)]


POINT_ORDERS = ["ascending", "descending", "rotated", "middle first"]


def reorder(pts, how):
    pts = list(pts)
    return {"ascending": pts, "descending": pts[::-1], "rotated": pts[1:] + pts[:1], "middle first": [pts[len(pts) // 2], *pts[: len(pts) // 2], *pts[len(pts) // 2 + 1 :]]}[how]


def run(ck):
    step = ck.q(16.0, 8.0)
    flows = [0.0, 1e-6, *np.arange(step, 449.0, step)]
    heads = [0.0, *np.arange(ck.q(16.0, 8.0), 417.0, ck.q(16.0, 8.0)), 72.0, 88.0, 104.0]
    ck.bounds.update(charts=len(CHARTS), margins=[str(m) for m in MARGINS], flows=len(flows), heads=len(heads))
    ck.assumptions += [
        "curves have strictly falling heads, distinct flows and speeds, and control and stone-wall lines that do not lean to the left; other curves are only warned about",
        "minimum and maximum flow as a function of head follow the straight line between the outermost curves (documented), as a function of speed the curve ends; "
        "the two are claimed to describe the same region for charts whose curve ends lie on the straight lines",
    ]

    def build(t, name, margin, few=False):
        speeds = sorted(CHARTS[name])
        order = t.pick("curve order", curve_orders(len(speeds)))
        pts = t.pick("point order", POINT_ORDERS[:2] if few else POINT_ORDERS)
        curves = [(speeds[i], reorder(CHARTS[name][speeds[i]], pts)) for i in order]
        how = t.pick("given as", ["curves", "file, curve by curve", "file, rows mixed"]) if not few else "curves"
        if how == "curves":
            return CompressorChart(data(curves, margin))
        rows = [(s, *p) for s, ps in curves for p in ps]
        if how == "file, rows mixed":
            rows = [r for k in range(max(len(p) for _, p in curves)) for r in [(s, *p[k]) for s, p in curves if k < len(p)]]
        if how != "curves" and len(speeds) == 1 and t.flip("no speed column"):
            res = MemoryResource(headers=["RATE", "HEAD", "EFFICIENCY"], data=[[r[i] for r in rows] for i in (1, 2, 3)])
        else:
            res = MemoryResource(headers=["HEAD", "SPEED", "EFFICIENCY", "RATE"], data=[[r[i] for r in rows] for i in (2, 0, 3, 1)])
        units = YamlUnits.model_validate({"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"})
        return CompressorChart(UserDefinedChartData.from_resource(res, units=units, is_single_speed=len(speeds) == 1, control_margin=margin))

    def envelope(t):
        name = t.pick("chart", list(CHARTS))
        margin = t.pick("margin", MARGINS)
        chart = build(t, name, margin)
        r = ref(name, margin)
        t.same(sorted(c.speed for c in chart.curves), [1.0] if chart.minimum_speed == 1 else r.speeds, "speeds of the chart")
        for c, (_, pts) in zip(chart.curves, r.curves):
            t.same(c.rate, [p[0] for p in pts], "flows of a curve")
            t.same(c.head, [p[1] for p in pts], "heads of a curve")
            t.same(c.efficiency, [p[2] for p in pts], "efficiencies of a curve")
        # limits as functions of one variable
        t.step(len(heads) * 4 + len(flows) * 2)
        for h in heads:
            t.same(chart.minimum_rate_as_function_of_head(h), r.min_rate(h, True), f"minimum flow at head {h}")
            t.same(chart.minimum_rate_as_function_of_head_no_choking(h), r.min_rate(h, False), f"minimum flow at head {h} without choking")
            t.same(chart.maximum_rate_as_function_of_head(h), r.max_rate(h, True), f"maximum flow at head {h}")
            t.same(chart.maximum_rate_as_function_of_head_no_choking(h), r.max_rate(h, False), f"maximum flow at head {h} without choking")
            for choke in (True, False):
                t.same(chart.get_maximum_rate(np.asarray([h]), extrapolate_heads_below_minimum=choke)[0], r.max_rate(h, choke), f"maximum flow at head {h}, choking {choke}")
        for q in flows:
            t.same(chart.minimum_head_as_function_of_rate(q), r.min_head(q), f"minimum head at flow {q}")
            t.same(chart.maximum_head_as_function_of_rate(q), r.max_head(q), f"maximum head at flow {q}")
        t.state(name, margin)

    def regions(t):
        name = t.pick("chart", list(CHARTS))
        margin = t.pick("margin", MARGINS)
        choke = t.flip("choking")
        r = ref(name, margin)
        chart = build(t, name, margin, few=True)
        pts = [(q, h) for q in flows for h in heads] + [(q, h) for q, h in r.ring]
        vertices = len(r.ring)
        batch = t.pick("asked", ["all at once", "reversed", "one at a time"])
        if batch == "one at a time" and ck.quick:
            pts = pts[:: 7] + pts[-vertices:]
        t.step(len(pts))
        fields = ["asv_corrected_rates", "choke_corrected_heads", "rate_has_recirc", "pressure_is_choked", "rate_exceeds_maximum", "head_exceeds_maximum", "exceeds_capacity"]
        if batch == "one at a time":
            parts = [chart.evaluate_capacity_and_extrapolate_below_minimum(q, h, choke) for q, h in pts]
            got = [[getattr(p, f)[0] for p in parts] for f in fields]
        else:
            ask = pts if batch == "all at once" else pts[::-1]
            res = chart.evaluate_capacity_and_extrapolate_below_minimum(np.array([p[0] for p in ask]), np.array([p[1] for p in ask]), choke)
            got = [list(getattr(res, f)) if ask is pts else list(getattr(res, f))[::-1] for f in fields]
        for (q, h), q2, h2, recirc, choked, rate_out, head_out, out in zip(pts, *got):
            where = f"flow {q}, head {h}"
            lo = r.min_rate(h, choke)
            need = below(q, lo)
            if need is not None:
                t.check(bool(recirc) == need, f"{where}: recirculation {recirc}, but the minimum flow is {lo}")
            t.same(q2, max(q, lo), f"{where}: flow through the machine")
            low = below(h, r.min_head(max(q, lo)))
            if choke:
                t.same(h2, max(h, r.min_head(max(q, lo))), f"{where}: head after choking")
                if low is not None:
                    t.check(bool(choked) == low, f"{where}: choked {choked}")
            else:
                t.same(h2, h, f"{where}: head must not be changed")
                t.check(not choked, f"{where}: choked although choking is not allowed")
            rx = below(r.max_rate(h, choke), max(q, lo))
            hx = below(r.max_head(q), max(h, r.min_head(max(q, lo))) if choke else h)
            if rx is not None:
                t.check(bool(rate_out) == rx, f"{where}: flow above maximum {rate_out}, maximum flow is {r.max_rate(h, choke)}")
            if hx is not None:
                t.check(bool(head_out) == hx, f"{where}: head above maximum {head_out}, maximum head is {r.max_head(q)}")
            # the same by plain geometry
            if len(r.curves) == 1:
                continue
            at = max(q, lo), max(h, r.min_head(max(q, lo))) if choke else h
            side = r.side(*at)
            if side:
                t.check(bool(out) == (side < 0), f"{where}: exceeds capacity {out}, but ({at[0]}, {at[1]}) is {'inside' if side > 0 else 'outside'} the chart")
            elif not (rx is None or hx is None or low is None):
                t.check(not out, f"{where}: exceeds capacity, but ({at[0]}, {at[1]}) is on the boundary of the chart")
            if r.side(q, h) > 0:
                t.check(not (recirc or choked or rate_out or head_out or out) and q2 == q and h2 == h, f"{where} is inside the chart, but classified otherwise")
            t.outcome(f"{'recirc ' if recirc else ''}{'choke ' if choked else ''}{'flow ' if rate_out else ''}{'head ' if head_out else ''}{'out' if out else 'in'}")
        t.state(name, margin, choke)

    def speeds_of(r):
        s = r.speeds
        mids = [a + (b - a) * f for a, b in zip(s, s[1:]) for f in ck.q((0.25, 0.5), (0.125, 0.25, 0.5, 0.75, 0.99))]
        return sorted({s[0] * 0.5, s[0] - 1e-6, *s, *mids, s[-1] + 1e-6, s[-1] * 2})

    def by_speed(t):
        name = t.pick("chart", list(CHARTS))
        margin = t.pick("margin", MARGINS)
        r = ref(name, margin)
        chart = build(t, name, margin, few=True)
        speed = t.pick("speed", speeds_of(r))
        choke = t.flip("raise low speeds")
        asv = t.flip("no recirculation") is False
        used = max(speed, r.speeds[0]) if choke else speed
        inside_speed = r.speeds[0] <= used <= r.speeds[-1]
        lo, hi = r.flow_range(min(max(used, r.speeds[0]), r.speeds[-1]))
        t.same(chart.minimum_rate_as_function_of_speed(used), lo, f"minimum flow at speed {used}")
        t.same(chart.maximum_rate_as_function_of_speed(used), hi, f"maximum flow at speed {used}")
        qs = [1e-3, lo / 2, lo * (1 - 1e-6), lo * (1 + 1e-6), hi * (1 - 1e-6), hi * (1 + 1e-6), hi * 1.5]
        qs += [lo + (hi - lo) * f for f in ck.q((0.125, 0.5, 0.75), (0.0625, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875))]
        if used in r.speeds:
            qs += [p[0] for p in dict(r.curves)[used]]
        if asv:
            qs += [0.0]
        for q in sorted(qs):
            for asked in [None, "to minimum", "halfway", "to maximum"] if asv and q <= hi else [None]:
                q2 = q if asked is None else {"to minimum": max(q, lo * (1 + 1e-9)), "halfway": max(q, (lo + hi) / 2), "to maximum": max(q, hi * (1 - 1e-9))}[asked]
                kw = {} if asked is None else {"actual_rate_m3_per_hour_including_asv": q2}
                res = chart.calculate_polytropic_head_and_efficiency_single_point(
                    speed=speed, actual_rate_m3_per_hour=q, increase_speed_below_assuming_choke=choke, increase_rate_left_of_minimum_flow_assuming_asv=asv, **kw
                )
                t.step()
                where = f"speed {speed}, flow {q}, with recirculation {q2}"
                low = speed < r.speeds[0]
                if not inside_speed:
                    want = F.BELOW_MINIMUM_SPEED if low else F.ABOVE_MAXIMUM_SPEED
                    t.check(not res.is_valid and res.chart_area_flag == want, f"{where}: valid {res.is_valid}, {res.chart_area_flag}; expected {want}")
                    t.outcome(want)
                    continue
                if q <= 1e-5:
                    want = F.NO_FLOW_RATE
                elif q < lo:
                    want = F.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE if low else F.BELOW_MINIMUM_FLOW_RATE
                elif q > hi:
                    want = F.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE if low else F.ABOVE_MAXIMUM_FLOW_RATE
                else:
                    want = F.BELOW_MINIMUM_SPEED if low else F.INTERNAL_POINT
                valid = q <= hi and (asv or q2 >= lo)
                t.check(res.chart_area_flag == want, f"{where}: classified {res.chart_area_flag}, expected {want} (flow range {lo} to {hi})")
                t.check(bool(res.is_valid) == valid, f"{where}: valid {res.is_valid} (flow range {lo} to {hi})")
                through = min(max(q2, lo), hi)
                head, eff = r.at_speed(used, through)
                t.same(res.polytropic_head, head, f"{where}: head")
                t.same(res.polytropic_efficiency, eff, f"{where}: efficiency")
                if valid and name not in BENT and len(r.curves) > 1:
                    t.check(
                        any(r.side(x, y) >= 0 for x in (through, through * (1 - 1e-8), through * (1 + 1e-8)) for y in (head, head * (1 - 1e-8), head * (1 + 1e-8))),
                        f"{where}: head {head} is outside the region between the curves",
                    )
                t.outcome(want)
        t.state(name, margin, speed)

    def reach(t):
        """every interior point is reached by exactly one speed"""
        name = t.pick("chart", [n for n in CHARTS if len(CHARTS[n]) > 1 and n not in BENT])
        margin = t.pick("margin", [None, 0.25])
        q = t.pick("flow", list(np.arange(ck.q(32.0, 16.0), 385.0, ck.q(32.0, 16.0))))
        r = ref(name, margin)
        chart = CompressorChart(data(list(CHARTS[name].items()), margin))
        inside = [h for h in heads if r.side(q, h) > 0]
        n = ck.q(24, 60)
        grid = [s for i in range(n + 1) for s in [r.speeds[0] + (r.speeds[-1] - r.speeds[0]) * i / n] if r.flow_range(s)[0] <= q <= r.flow_range(s)[1]]

        def head(s):
            res = chart.calculate_polytropic_head_and_efficiency_single_point(speed=s, actual_rate_m3_per_hour=q, increase_rate_left_of_minimum_flow_assuming_asv=False)
            t.step()
            return res

        rs = [head(s) for s in grid]
        for s, a in zip(grid, rs):
            t.check(a.is_valid and a.chart_area_flag == F.INTERNAL_POINT, f"flow {q}, speed {s}: {a.chart_area_flag}")
        for (s1, a), (s2, b) in zip(zip(grid, rs), zip(grid[1:], rs[1:])):
            t.check(a.polytropic_head < b.polytropic_head, f"flow {q}: head does not rise from speed {s1} to {s2} ({a.polytropic_head}, {b.polytropic_head})")
        for h in inside:
            # all speeds that can pass the flow
            feasible = [s for s in (r.speeds[0] + (r.speeds[-1] - r.speeds[0]) * i / 4096 for i in range(4097)) if r.flow_range(s)[0] <= q <= r.flow_range(s)[1]]
            lo, hi = feasible[0], feasible[-1]
            a, b = head(lo), head(hi)
            if not a.polytropic_head <= h <= b.polytropic_head:
                # the head lies within the last step of the speed scan
                t.check(min(abs(a.polytropic_head - h), abs(b.polytropic_head - h)) < 1.0, f"flow {q}, head {h} is inside the chart, but the speeds that pass the flow give heads {a.polytropic_head} to {b.polytropic_head}")
                continue
            for _ in range(60):
                mid = (lo + hi) / 2
                if head(mid).polytropic_head < h:
                    lo = mid
                else:
                    hi = mid
            res = head(hi)
            t.check(res.is_valid and res.chart_area_flag == F.INTERNAL_POINT and close(res.polytropic_head, h, 1e-9), f"flow {q}, head {h}: speed {hi} gives {res.polytropic_head}, {res.chart_area_flag}")
            t.outcome("reached")
        if not inside:
            t.outcome("no interior point")
        t.state(name, margin, q)

    def efficiency(t):
        """efficiency at a point: that of the curve on a curve, between the neighbours elsewhere, the same for every order and unit"""
        name = t.pick("chart", list(CHARTS))
        margin = t.pick("margin", [None, 0.25])
        r = ref(name, margin)
        chart = build(t, name, margin, few=True)
        k, m = t.pick("units", [(1.0, 1.0), (24.0, 1.0), (1.0, 1000.0), (0.125, 9.80665)])
        scaled = CompressorChart(data([(s, [(q * k, h * m, e) for q, h, e in pts]) for s, pts in CHARTS[name].items()], margin))
        effs = [p[2] for _, pts in r.curves for p in pts]
        pts = [(q + 1.3, h + 2.3) for q in flows[:: ck.q(2, 1)] for h in heads[:: ck.q(3, 2)]]  # off the heads of curve ends, where 'above' and 'below' change
        on = [(q, h, e) for s, ps in r.curves for p0, p1 in zip(ps, ps[1:]) for f in (0.0, 0.25, 0.5, 1.0) for q, h, e in [tuple(a + f * (b - a) for a, b in zip(p0, p1))]]
        t.step(2 * (len(pts) + len(on)))
        ask = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        a = chart.efficiency_as_function_of_rate_and_head(*ask)
        b = scaled.efficiency_as_function_of_rate_and_head(ask[0] * k, ask[1] * m)
        t.same(a, list(b), "efficiency in other units of flow and head", rel=1e-6)
        t.check(all(min(effs) - 1e-9 <= x <= max(effs) + 1e-9 for x in a), f"efficiency outside the range of the chart {min(effs)} to {max(effs)}: {min(a)}, {max(a)}")
        c = chart.efficiency_as_function_of_rate_and_head(np.array([p[0] for p in on]), np.array([p[1] for p in on]))
        t.same(c, [p[2] for p in on], "efficiency on the curves", rel=1e-6)
        if name in ("two curves", "two-point curves", "three curves") and not margin:
            # half way between two curves the efficiency is between those of the closest points
            one = chart.efficiency_as_function_of_rate_and_head(np.array([pts[5][0]]), np.array([pts[5][1]]))
            t.same(one[0], a[5], "efficiency of a point asked alone")
        t.state(name, margin)

    def design_point(t):
        q, h = t.pick("design flow", [1.0, 700.0, 12345.678]), t.pick("design head", [1.0, 50000.0, 123456.0])
        eff = t.pick("efficiency", [0.5, 0.75, 1.0])
        d = CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=q, design_head_joule_per_kg=h, polytropic_efficiency=eff)
        one = CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=1.0, design_head_joule_per_kg=1.0, polytropic_efficiency=eff)
        chart = CompressorChart(d)
        t.step(2)
        t.same([c.speed for c in chart.curves], [75, 105], "speeds of a generic chart")
        for c, u in zip(chart.curves, CompressorChart(one).curves):
            t.same(c.rate, [x * q for x in u.rate], "flows of a generic chart follow the design flow", rel=1e-12)
            t.same(c.head, [x * h for x in u.head], "heads of a generic chart follow the design head", rel=1e-12)
            t.check(all(e == eff for e in c.efficiency), "efficiency of a generic chart")
        res = chart.evaluate_capacity_and_extrapolate_below_minimum(np.array([q, 0.8 * q, 1.1 * q]), np.array([h, 0.8 * h, 1.1 * h]), False)
        t.check(not any(res.exceeds_capacity) and not any(res.rate_has_recirc), "the design point and its surroundings must be inside the generic chart")
        t.same(chart.maximum_head_as_function_of_rate(chart.maximum_rate_as_function_of_head(h)), h, "the maximum speed curve passes the design head")
        t.same(chart.efficiency_as_function_of_rate_and_head(np.array([q]), np.array([h]))[0], eff, "efficiency of the design point")
        t.state(q, h, eff)

    def from_input(t):
        n = t.pick("points", [1, 2, 3])
        menu_q = ck.q([100.0, 180.0, 330.0, 400.0], [100.0, 180.0, 260.0, 330.0, 400.0])
        menu_h = ck.q([1000.0, 4000.0, 5500.0, 7000.0], [1000.0, 2500.0, 4000.0, 5500.0, 7000.0])
        pts = []
        for i in range(n):
            rest = [(q, h) for q in menu_q for h in menu_h if (q, h) not in pts and (not pts or (q, h) > pts[-1])]
            if not rest:
                raise Prune()
            pts.append(t.pick(f"point {i}", rest))
        k, m = 7.0, 13.0
        mk = lambda ps: CompressorChartCreator.from_rate_and_head_values([p[0] for p in ps], [p[1] for p in ps], 0.8)  # noqa: E731
        d = mk(pts)
        t.step(3)
        ask = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])

        def sized(f, choke):
            chart = CompressorChart(CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=d.design_rate * f, design_head_joule_per_kg=d.design_head * f, polytropic_efficiency=0.8))
            return chart.evaluate_capacity_and_extrapolate_below_minimum(*ask, choke)

        res = sized(1.001, True)
        t.check(not any(res.exceeds_capacity), f"points {pts} are to be inside the chart made from them, but exceed it: {res.exceeds_capacity} (design {d.design_rate}, {d.design_head})")
        small = sized(0.97, False)
        t.check(any(small.rate_exceeds_maximum) or any(small.head_exceeds_maximum), f"points {pts}: the chart made from them is larger than needed (design {d.design_rate}, {d.design_head})")
        d2 = mk([(q * k, h * m) for q, h in pts])
        t.same((d2.design_rate, d2.design_head), (d.design_rate * k, d.design_head * m), "scaled points give the scaled chart", rel=1e-3)
        d3 = mk(pts[::-1])
        t.same((d3.design_rate, d3.design_head), (d.design_rate, d.design_head), "chart made from points in another order")
        t.outcome(f"{n} points")
        t.state(tuple(pts))

    ck.explore("limits of flow and head", envelope)
    ck.explore("regions", regions)
    ck.explore("by speed", by_speed)
    ck.explore("reach", reach)
    ck.explore("efficiency", efficiency)
    ck.explore("generic from design point", design_point)
    ck.explore("generic from input", from_input)
