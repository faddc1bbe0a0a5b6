"""Stateless bounded model checker for the real ecalc code.

A *scenario* is a plain function ``scenario(t)`` that drives the real implementation.  Every point at which the
environment or the user has a choice calls ``t.pick(name, options)``; the explorer runs the scenario once for
*every* sequence of choices (optionally: with at most ``bound`` deviations from the default option 0), so a
finished exploration is an exhaustive statement about the bounded space, never a sample.

Inside a scenario the oracle is either an invariant (``t.check``) or agreement with a reference model
(``t.same``).  ``t.state`` records canonical model states, ``t.step`` counts executed transitions.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, message: str, key: str | None = None):
        super().__init__(message)
        self.message = message
        self.key = key


class Prune(Exception):
    """The chosen combination is not part of the alphabet (documented precondition not met)."""


class HarnessError(Exception):
    """The machinery itself is broken: never reported as a violation."""


def h64(obj: Any) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def close(a, b, rel=1e-9, abs_=1e-9) -> bool:
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def close_list(a, b, rel=1e-9, abs_=1e-9) -> bool:
    a = list(a)
    b = list(b)
    return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))


@dataclass
class Point:
    name: str
    n: int
    chosen: int
    cost: int


class Trace:
    """One execution."""

    def __init__(self, prefix: list[int], bound: int | None):
        self.prefix = prefix
        self.bound = bound
        self.points: list[Point] = []
        self.labels: list[tuple[str, str]] = []
        self.used = 0
        self.steps = 0
        self.states: set[int] = set()
        self.outcomes: Counter = Counter()
        self.checks = 0
        self.context: list[str] = []

    # ---- choices
    def pick(self, name: str, options, cost: int = 0):
        """Choose one of ``options``.  Option 0 is the default; any other one costs ``cost`` deviations."""
        options = list(options)
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(options):
            raise HarnessError(f"replay diverged at {name}: choice {c} of {len(options)} options")
        if c != 0:
            self.used += cost
        self.points.append(Point(name, len(options), c, cost))
        v = options[c]
        self.labels.append((name, _short(v)))
        return v

    def flip(self, name: str, cost: int = 0) -> bool:
        return self.pick(name, [False, True], cost)

    # ---- observations
    def step(self, n: int = 1):
        self.steps += n

    def state(self, *key):
        self.states.add(h64(key))

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    # ---- oracles
    def note(self, msg):
        self.context.append(str(msg))

    def fail(self, msg: str, key: str | None = None):
        raise Violation(msg, key)

    def check(self, cond, msg, key: str | None = None):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def same(self, actual, expected, what: str, rel=1e-9, abs_=1e-9, key: str | None = None):
        """actual (implementation) must equal expected (reference model), within a float tolerance."""
        self.checks += 1
        ok = False
        try:
            ok = _deep_close(actual, expected, rel, abs_)
        except TypeError:
            ok = False
        if not ok:
            raise Violation(f"{what}: implementation gave {_short(actual, 600)}, model expects {_short(expected, 600)}", key)

    def raises(self, fn: Callable, what: str, exc=Exception, key: str | None = None):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(f"{what}: expected rejection ({exc}), but got {_short(r)}", key)


def _deep_close(a, b, rel, abs_) -> bool:
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(_deep_close(a[k], b[k], rel, abs_) for k in b)
    if isinstance(b, (list, tuple)):
        a = list(a)
        return len(a) == len(b) and all(_deep_close(x, y, rel, abs_) for x, y in zip(a, b))
    if b is None or a is None:
        return a is b
    if isinstance(b, (str, bytes)):
        return a == b
    if isinstance(b, bool):
        return bool(a) == b
    if isinstance(b, (int, float)) or hasattr(b, "__float__"):
        return close(a, b, rel, abs_)
    return a == b


def _short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[: n - 3] + "..."


@dataclass
class Found:
    scenario: str
    choices: list[int]
    labels: list
    message: str
    key: str | None
    context: list[str] = field(default_factory=list)


class Result:
    def __init__(self):
        self.runs = 0
        self.pruned = 0
        self.steps = 0
        self.checks = 0
        self.states: set[int] = set()
        self.outcomes: Counter = Counter()
        self.found: list[Found] = []
        self.samples: list = []
        self.capped = False
        self.harness_error: str | None = None
        self.max_used = 0
        self.max_depth = 0

    def merge(self, o: "Result"):
        self.runs += o.runs
        self.pruned += o.pruned
        self.steps += o.steps
        self.checks += o.checks
        self.states |= o.states
        self.outcomes += o.outcomes
        self.found += o.found
        self.capped |= o.capped
        self.harness_error = self.harness_error or o.harness_error
        self.max_used = max(self.max_used, o.max_used)
        self.max_depth = max(self.max_depth, o.max_depth)
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)


MAX_FOUND_PER_WORKER = 25


def execute(name: str, scenario, prefix: list[int], bound, res: Result) -> Trace:
    t = Trace(prefix, bound)
    try:
        scenario(t)
        ended = "ok"
    except Prune:
        ended = "pruned"
    except Violation as v:
        ended = "violation"
        res.found.append(Found(name, [p.chosen for p in t.points], t.labels, v.message, v.key, t.context))
    except HarnessError as e:
        ended = "harness"
        res.harness_error = f"{name} {t.labels}: {e}"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # the implementation raised where the model does not
        ended = "violation"
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/src/" in f.filename]
        loc = f"{os.path.relpath(where[-1].filename, REPO)}:{where[-1].name}" if where else "harness"
        if not where and isinstance(e, (ImportError, NameError, SyntaxError)):
            ended = "harness"
            res.harness_error = f"{name} {t.labels}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
        else:
            res.found.append(
                Found(
                    name,
                    [p.chosen for p in t.points],
                    t.labels,
                    f"unexpected {type(e).__name__}: {str(e)[:400]} (at {loc})",
                    None,
                    t.context + traceback.format_exc().splitlines()[-12:],
                )
            )
    if len(t.points) < len(prefix) and ended not in ("violation", "harness", "pruned"):
        res.harness_error = f"{name}: replay diverged, fewer choice points than prefix {prefix}"
    if ended == "pruned":
        res.pruned += 1
    else:
        res.runs += 1
        res.steps += t.steps
        res.checks += t.checks
        res.states |= t.states
        res.outcomes += t.outcomes
        res.max_used = max(res.max_used, t.used)
        res.max_depth = max(res.max_depth, len(t.points))
        if len(res.samples) < 2 or (res.runs % 997 == 0 and len(res.samples) < 4):
            res.samples.append({"scenario": name, "choices": [f"{a}={b}" for a, b in t.labels], "outcomes": dict(t.outcomes)})
    return t


def alternatives(t: Trace, start: int, bound):
    used = 0
    out = []
    for i, p in enumerate(t.points):
        if i >= start:
            if bound is None or used + p.cost <= bound:
                for alt in range(1, p.n):
                    out.append([q.chosen for q in t.points[:i]] + [alt])
        if p.chosen != 0:
            used += p.cost
    return out


def explore_subtree(name, scenario, prefix, bound, deadline) -> Result:
    res = Result()
    stack = [prefix]
    while stack:
        if time.time() > deadline:
            res.capped = True
            break
        p = stack.pop()
        t = execute(name, scenario, p, bound, res)
        if res.harness_error:
            break
        if len(res.found) >= MAX_FOUND_PER_WORKER:
            res.capped = True
            break
        stack.extend(reversed(alternatives(t, len(p), bound)))
    return res


_JOBS: dict[str, Any] = {}


def _worker(args):
    name, prefix = args
    scenario, bound, deadline = _JOBS[name]
    try:
        return explore_subtree(name, scenario, prefix, bound, deadline)
    except BaseException:
        r = Result()
        r.harness_error = traceback.format_exc()
        return r


class Checker:
    def __init__(self, prop: str, tier: str):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.total = Result()
        self.parts: list[dict] = []
        self.t0 = time.time()
        self.assumptions: list[str] = []
        self.bounds: dict[str, Any] = {}
        self.scenarios: dict[str, Any] = {}

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def explore(self, name: str, scenario, bound: int | None = None, workers: int | None = None, cap_s: float | None = None):
        """Exhaustively explore one scenario (all choice sequences, at most ``bound`` deviations)."""
        self.scenarios[name] = scenario
        if os.environ.get("VERIF_ONLY") and os.environ["VERIF_ONLY"] not in name:
            return None
        cap_s = cap_s or (240 if self.quick else 780)
        workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
        t0 = time.time()
        deadline = min(t0 + cap_s, self.t0 + (600 if self.quick else 840))
        res = Result()
        # grow a frontier of disjoint subtrees, breadth first
        frontier: list[list[int]] = [[]]
        while frontier and (
            len(frontier) < workers * 12
            and res.runs + res.pruned < 400
            or len(frontier[0]) <= 1  # few large subtrees would keep a few workers busy
            and res.runs + res.pruned < 40
        ):
            p = frontier.pop(0)
            t = execute(name, scenario, p, bound, res)
            if res.harness_error:
                break
            frontier.extend(alternatives(t, len(p), bound))
            if time.time() - t0 > 20 and workers > 1:
                break
            if time.time() > deadline:
                res.capped = True
                break
            if len(res.found) >= MAX_FOUND_PER_WORKER:
                break
        if frontier and not res.harness_error and len(res.found) < MAX_FOUND_PER_WORKER:
            if workers > 1:
                _JOBS[name] = (scenario, bound, deadline)
                ctx = mp.get_context("fork")
                with ctx.Pool(workers, maxtasksperchild=None) as pool:
                    for r in pool.imap_unordered(_worker, [(name, p) for p in frontier], chunksize=1):
                        res.merge(r)
                        if res.harness_error or len(res.found) > 200:
                            res.capped = True
                            pool.terminate()
                            break
            else:
                for p in frontier:
                    r = explore_subtree(name, scenario, p, bound, deadline)
                    res.merge(r)
                    if res.harness_error or len(res.found) > 100:
                        res.capped = True
                        break
        part = {
            "scenario": name,
            "executions": res.runs,
            "pruned": res.pruned,
            "transitions": res.steps,
            "states": len(res.states),
            "assertions": res.checks,
            "distinct_outcomes": len(res.outcomes),
            "outcomes": dict(res.outcomes.most_common(12)),
            "deviation_bound": bound,
            "choice_depth": res.max_depth,
            "exhaustive": not res.capped,
            "wall_s": round(time.time() - t0, 2),
        }
        self.parts.append(part)
        print(
            f"[{self.prop}] {name}: executions={res.runs} pruned={res.pruned} transitions={res.steps} "
            f"states={len(res.states)} outcomes={len(res.outcomes)} assertions={res.checks} "
            f"bound={bound} exhaustive={not res.capped} {part['wall_s']}s",
            flush=True,
        )
        self.total.merge(res)
        if res.harness_error:
            raise HarnessError(res.harness_error)
        return res


# ------------------------------------------------------------------ findings / reporting


def load_known(prop: str) -> dict[str, str]:
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    known[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return known


def finish(ck: Checker) -> int:
    known = load_known(ck.prop)
    listed: dict[str, Found] = {}
    new: list[Found] = []
    for f in ck.total.found:
        if f.key is not None and f.key in known:
            listed.setdefault(f.key, f)
        else:
            new.append(f)

    # a violation must reproduce from its recorded choices before it is believed
    confirmed: list[Found] = []
    flaky = 0
    new.sort(key=lambda f: (sum(1 for c in f.choices if c), len(f.choices)))
    for f in new[:12]:
        ok = 0
        for _ in range(2):
            r = Result()
            execute(f.scenario, ck.scenarios[f.scenario], f.choices, None, r)
            ok += bool(r.found)
        if ok == 2:
            confirmed.append(f)
        else:
            flaky += 1

    for k in listed:
        print(f"KNOWN-FINDING: property={ck.prop} key={k} {known[k]}")

    total = ck.total
    exhaustive = not total.capped
    ev = {
        "property": ck.prop,
        "tier": ck.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.steps,
            "traces_validated_against_impl": total.runs,
            "assertions": total.checks,
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": exhaustive,
            "bounds": ck.bounds,
            "scenarios": ck.parts,
            "samples": total.samples[:6] or [{"note": "no execution"}],
        },
        "assumptions": ck.assumptions,
        "wall_s": round(time.time() - ck.t0, 3),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ck.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    if confirmed:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, f in enumerate(confirmed[:6]):
            path = os.path.join(d, f"{ck.prop}-{i}.json")
            with open(path, "w") as fh:
                json.dump(
                    {
                        "property": ck.prop,
                        "tier": ck.tier,
                        "scenario": f.scenario,
                        "choices": f.choices,
                        "labels": f.labels,
                        "message": f.message,
                        "context": f.context,
                        "replay": f"/verif/check replay {path}",
                    },
                    fh,
                    indent=1,
                    default=str,
                )
            print(f"  {f.scenario} {[f'{a}={b}' for a, b in f.labels]}\n    {f.message}")
            print(f"VIOLATION property={ck.prop} replay={path}", flush=True)
        print(f"[{ck.prop}] {len(total.found)} failing executions; {len(confirmed)} confirmed by replay")
        return 1
    if flaky:
        print(f"[{ck.prop}] harness error: {flaky} violations did not reproduce from their recorded choices")
        return 2
    print(
        f"[{ck.prop}] OK tier={ck.tier} executions={total.runs} states={len(total.states)} transitions={total.steps} "
        f"assertions={total.checks} exhaustive={exhaustive} wall={time.time() - ck.t0:.1f}s"
    )
    return 0


@contextlib.contextmanager
def quiet():
    """Silence the implementation's own logging / warnings."""
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield
