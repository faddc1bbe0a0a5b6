"""Reference pump: an independent, scalar, pure Python description of the documented pump behaviour.

A chart is a list of (speed, [(rate m3/h, head J/kg, efficiency fraction), ...]).
"""

from __future__ import annotations

import math

from mc.e2e import interp

G = 9.81


def chart(curves, head_unit="JOULE_PER_KG"):
    k = {"JOULE_PER_KG": 1.0, "KJ_PER_KG": 1000.0, "M": G}[head_unit]
    return sorted((s, sorted((q, h * k, e) for q, h, e in pts)) for s, pts in curves)


def head_of(ps, pd, rho):
    return (pd - ps) * 1e5 / rho


def _cols(curve):
    return [p[0] for p in curve[1]], [p[1] for p in curve[1]], [p[2] for p in curve[1]]


def max_head(c, q):
    qs, hs, _ = _cols(c[-1])
    return interp(q, qs, hs)


def min_head(c, q):
    qs, hs, _ = _cols(c[0])
    qt, ht, _ = c[-1][1][-1]
    if qt > qs[-1]:
        qs, hs = qs + [qt], hs + [ht]
    return interp(q, qs, hs)


def min_rate(c, h):
    (q0, h0, _), (q1, h1, _) = c[0][1][0], c[-1][1][0]
    if h0 == h1:
        return q0 if h <= h0 else q1
    return interp(h, [h0, h1], [q0, q1])


def max_rate(c):
    return max(pts[-1][0] for _, pts in c)


def max_rate_at_head(c, h):
    qs, hs, _ = _cols(c[-1])
    return interp(h, hs[::-1], qs[::-1])


def _closest(px, py, pts):
    best = None
    for (x0, y0), (x1, y1) in zip(pts[:-1], pts[1:]):
        dx, dy = x1 - x0, y1 - y0
        u = ((px - x0) * dx + (py - y0) * dy) / (dx * dx + dy * dy)
        u = min(1.0, max(0.0, u))
        x, y = x0 + u * dx, y0 + u * dy
        d = math.hypot(px - x, py - y)
        if best is None or d < best[0] - 1e-15:
            best = (d, x, y)
    return best


def efficiency(c, q, h, level_is_above=True):
    """Distance-weighted efficiency of the nearest points on the curves above and below, rate and head equally weighted.

    A curve whose nearest point lies exactly level with the operating point is neither above nor below."""
    if all(p[2] == 1 for _, pts in c for p in pts):
        return 1.0
    qs = [p[0] for _, pts in c for p in pts]
    hs = [p[1] for _, pts in c for p in pts]

    def scale(v):
        m = sum(v) / len(v)
        s = math.sqrt(sum((x - m) ** 2 for x in v) / len(v))
        return m, s

    (mq, sq), (mh, sh) = scale(qs), scale(hs)
    if sq == 0 or sh == 0:
        sq = sh = 1.0
    x, y = (q - mq) / sq, (h - mh) / sh
    above = below = None
    for _, pts in c:
        sp = [((p[0] - mq) / sq, (p[1] - mh) / sh) for p in pts]
        d, cx, cy = _closest(x, y, sp)
        e = interp(cx, [p[0] for p in sp], [p[2] for p in pts])
        if cy < y + (-1e-9 if level_is_above else 1e-9):
            if below is None or d < below[0]:
                below = (d, e)
        elif above is None or d < above[0]:
            above = (d, e)
    if above is None:
        return below[1]
    if below is None:
        return above[1]
    if above[0] + below[0] == 0:
        return above[1]
    return (above[0] * below[1] + below[0] * above[1]) / (above[0] + below[0])


OK, HEAD, RATE, BOTH = (
    "NO_FAILURE",
    "ABOVE_MAXIMUM_HEAD_AT_RATE",
    "ABOVE_MAXIMUM_PUMP_RATE",
    "ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE",
)


def simulate(c, rate_day, ps, pd, rho, margin_m=0.0, min_flow=None):
    """-> dict(power MW, requested head, operating head, operating rate m3/h, status, slack)

    ``slack`` is the smallest relative distance to a limit where the documented status changes."""
    need = head_of(ps, pd, rho)
    if rate_day <= 0:
        return dict(power=0.0, power2=0.0, need=need, head=0.0, rate=0.0, status=OK, slack=1.0, eff=None)
    q = max(rate_day / 24, min_rate(c, need), min_flow or 0.0)
    h = max(need, min_head(c, q))
    top = max_head(c, q)
    m = margin_m * G
    slack = min(abs(h - top) / abs(top), abs(h - top - m) / abs(top) if m else 1.0, abs(q - max_rate(c)) / max_rate(c))
    if m and top < h <= top + m:
        h = top
    hi = h > top * (1 + 1e-12)
    qi = q > max_rate(c) * (1 + 1e-12)
    status = BOTH if hi and qi else HEAD if hi else RATE if qi else OK
    e = efficiency(c, q, h)
    e2 = efficiency(c, q, h, False)
    pw = rho * h * q / 3600 / 1e6
    return dict(power=pw / e, power2=pw / e2, need=need, head=h, rate=q, status=status, slack=slack, eff=e)
