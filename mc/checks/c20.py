"""C20: caches.  All operation sequences up to a depth on the real LRU cache and the cache registry against a reference LRU model, and all
interleavings (up to a preemption bound, at byte code granularity, real threads under a controlled scheduler) of small concurrent
programs, each required to be linearizable with respect to that model."""

import json
import subprocess
import sys
import os

from mc import core
from mc.sched import CoopLock, Deadlock, Patched, Sched, fresh_module

PATH = os.path.join(core.REPO, "src", "ecalc_neqsim_wrapper", "cache_service.py")


class Key:
    """equal hashes, different keys"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Key) and o.n == self.n

    def __repr__(self):
        return f"Key({self.n})"


def key(i, kind):
    if kind == "tuple":
        return ("TP", (("methane", 0.5), ("ethane", float(i))), 1.0)  # a new, equal object every time
    if kind == "collide":
        return Key(i)
    return i


VALUES = [0, "", False, 3.5, (), "x", [], 8]


class Model:
    """reference LRU"""

    def __init__(self, size):
        self.size = size
        self.d = []  # least recently used first
        self.hits = self.misses = self.evictions = 0

    def copy(self):
        m = Model(self.size)
        m.d = list(self.d)
        m.hits, m.misses, m.evictions = self.hits, self.misses, self.evictions
        return m

    def get(self, k):
        for i, (a, v) in enumerate(self.d):
            if a == k:
                self.d.append(self.d.pop(i))
                self.hits += 1
                return v
        self.misses += 1
        return None

    def put(self, k, v):
        if self.size == 0:
            return None
        self.d = [e for e in self.d if e[0] != k] + [(k, v)]
        if len(self.d) > self.size:
            self.d.pop(0)
            self.evictions += 1
        return None

    def clear(self):
        self.d = []
        self.hits = self.misses = self.evictions = 0

    def len(self):
        return len(self.d)

    def stats(self):
        total = self.hits + self.misses
        return {
            "hits": self.hits,
            "misses": self.misses,
            "evictions": self.evictions,
            "size": len(self.d),
            "max_size": self.size,
            "hit_rate_percent": round(self.hits / total * 100, 1) if total else 0,
        }


def do_model(m, op):
    kind, *a = op
    if kind == "get":
        return m.get(a[0])
    if kind == "put":
        return m.put(a[0], a[1])
    if kind == "clear":
        return m.clear()
    if kind == "len":
        return m.len()
    return m.stats()


def do_real(c, op, kk):
    kind, *a = op
    if kind == "get":
        return c.get(key(a[0], kk))
    if kind == "put":
        return c.put(key(a[0], kk), a[1])
    if kind == "clear":
        return c.clear()
    if kind == "len":
        return len(c)
    return c.get_stats()


def same(a, b):
    return type(a) is type(b) and a == b if not isinstance(b, (dict, int, float)) or isinstance(b, bool) else a == b and isinstance(a, bool) == isinstance(b, bool)


CLI = """
import contextlib, json, sys, tempfile, pathlib
import ecalc_cli.commands.run as R
from ecalc_cli.main import app
from typer.testing import CliRunner
class No:
    factory = staticmethod(lambda *a, **k: No())
    def initialize(self):
        return contextlib.nullcontext()
R.NeqsimService = No
with tempfile.TemporaryDirectory() as d:
    m = pathlib.Path(d) / "model.yml"
    m.write_text("START: 2020-01-01\\nEND: 2021-01-01\\nFUEL_TYPES: [{NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}]\\nINSTALLATIONS: [{NAME: A, FUEL: gas, FUELCONSUMERS: [{NAME: f, CATEGORY: FLARE, ENERGY_USAGE_MODEL: {TYPE: DIRECT, FUELRATE: 1}}]}]")
    r = CliRunner().invoke(app, ["run", str(m), *sys.argv[1:]])
    if r.exit_code:
        sys.exit(str(r.output) + str(r.exception))
from ecalc_neqsim_wrapper import NeqSimFluidService
from ecalc_neqsim_wrapper.cache_service import CacheName, CacheService
NeqSimFluidService.instance()
out = {}
for n in CacheName:
    c = CacheService.get_cache(n)
    for k in range(3):
        c.put(("key", k), k)
    out[str(n.value)] = [c.get_stats()["max_size"], len(c)]
print(json.dumps(out))
"""


def run(ck):
    mod = fresh_module("mc_cache_service", PATH)
    LRUCache = mod.LRUCache
    depth = ck.q(6, 7)
    ck.bounds.update(sequence_depth=depth, keys=3, capacities=[0, 1, 2, 3], threads="2-3", operations_per_thread="1-2", preemptions=ck.q(3, 4))
    ck.assumptions += ["stored values are not None (None means 'not found')", "single C-level dictionary operations are atomic (CPython GIL)"]
    OPS = [("get", 0), ("put", 0), ("get", 1), ("put", 1), ("get", 2), ("put", 2), ("clear",)]

    def sequences(t):
        size = t.pick("capacity", [1, 2, 3, 0])
        kk = t.pick("keys", ["tuple", "collide", "int"] if not ck.quick else ["tuple", "collide"])
        with Patched():
            c = LRUCache(max_size=size)
        m = Model(size)
        for i in range(depth if size else 4):
            op = t.pick(f"op{i}", OPS)
            if op[0] == "put":
                op = (*op, VALUES[i % len(VALUES)])
            r, e = do_real(c, op, kk), do_model(m, op)
            t.step()
            t.check(same(r, e), lambda: f"{op} after {t.labels}: got {r!r}, expected {e!r}")
            t.check(len(c) <= size, f"{len(c)} entries in a cache of {size}")
            t.same(c.get_stats(), m.stats(), f"statistics after {op}")
            t.state(size, m.d, m.hits, m.misses)
        # which entries are there, and in which order they go
        order = [k for k, _ in m.d]
        for n in range(len(order) + 1):
            c.put(key(100 + n, kk), "new")
            m.put(100 + n, "new")
            t.check(len(c) == m.len(), "size while pushing entries out")
        for k in [0, 1, 2, *[100 + n for n in range(len(order) + 1)]]:
            r, e = c.get(key(k, kk)), m.get(k)
            t.check(same(r, e), f"key {k} at the end: {r!r}, expected {e!r}")
        t.outcome((size, m.evictions))

    ck.explore("operation sequences", sequences)

    def eviction_order(t):
        """after any sequence, adding new keys removes exactly the least recently used ones, one at a time"""
        size = t.pick("capacity", [2, 3, 1])
        with Patched():
            c = LRUCache(max_size=size)
        m = Model(size)
        n = t.pick("length", list(range(1, ck.q(5, 6) + 1)))
        for i in range(n):
            op = t.pick(f"op{i}", OPS[:6])
            if op[0] == "put":
                op = (*op, f"v{i}")
            do_real(c, op, "tuple")
            do_model(m, op)
            t.step()
        new = t.pick("new keys", list(range(0, size + 1)))
        for k in range(new):
            c.put(key(50 + k, "tuple"), k)
            m.put(50 + k, k)
        for k in [0, 1, 2]:
            r, e = c.get(key(k, "tuple")), m.get(k)
            t.check(same(r, e), f"key {k} after {new} new keys: {r!r}, expected {e!r}")
        t.state(size, m.d)

    ck.explore("eviction order", eviction_order)

    # ---------------------------------------------------------------- registry
    def empty_registry():
        """the registry without any cache; clearing it this way is documented (see NeqSimFluidService.reset_instance)"""
        known = getattr(mod.CacheService, "_caches", None)
        if isinstance(known, dict):
            known.clear()
            return mod.CacheService
        return fresh_module("mc_cache_service", PATH).CacheService

    def registry(t):
        CacheService = empty_registry()
        models, handles = {}, {}
        for i in range(ck.q(4, 5)):
            op = t.pick(f"op{i}", ["create a 2", "create b 1", "create a 1", "lookup a", "put a", "put b", "clear a", "clear all", "clear missing", "stats"])
            w = op.split()
            t.step()
            if w[0] == "create":
                with Patched():
                    c = CacheService.create_cache(w[1], max_size=int(w[2]))
                if w[1] in models:
                    t.check(c is handles[w[1]], f"{op}: not the cache of that name")
                else:
                    models[w[1]], handles[w[1]] = Model(int(w[2])), c
            elif w[0] == "lookup":
                t.check(CacheService.get_cache(w[1]) is handles.get(w[1]), f"{op}: wrong cache")
            elif w[0] == "put":
                if w[1] in handles:
                    handles[w[1]].put(key(i % 2, "tuple"), f"v{i}")
                    models[w[1]].put(i % 2, f"v{i}")
            elif op == "clear all":
                CacheService.clear_all()
                for m in models.values():
                    m.clear()
            elif w[0] == "clear":
                CacheService.clear_cache(w[1])
                if w[1] in models:
                    models[w[1]].clear()
            t.same(CacheService.get_all_stats(), {n: m.stats() for n, m in models.items()}, f"{op}: statistics of all caches")
        for n, m in models.items():
            for k in range(2):
                t.check(same(handles[n].get(key(k, "tuple")), m.get(k)), f"cache {n} key {k}")
        t.state(sorted((n, m.size, m.d) for n, m in models.items()))

    ck.explore("registry sequences", registry)

    # ---------------------------------------------------------------- interleavings
    def linearizable(hist, init, final):
        """hist: list of (thread, start, end, op, result)"""
        n = len(hist)

        def ok(m, left, order):
            if not left:
                return final(m)
            for i in left:
                if any(hist[j][2] < hist[i][1] for j in left if j != i):
                    continue  # an operation that finished earlier must come first
                m2 = m.copy()
                if same(do_model(m2, hist[i][3]), hist[i][4]) and ok(m2, [j for j in left if j != i], order + [i]):
                    return True
            return False

        return ok(init, list(range(n)), [])

    PROGRAMS = {
        "put/get same key": (2, [("put", 0, "i0")], [[("put", 1, "a")], [("get", 0), ("get", 1)]]),
        "two puts at capacity": (1, [("put", 0, "i0")], [[("put", 1, "a")], [("put", 2, "b")]]),
        "evict while reading": (1, [("put", 0, "i0")], [[("put", 1, "a")], [("get", 0)]]),
        "same key twice": (2, [], [[("put", 0, "a")], [("put", 0, "b"), ("get", 0)]]),
        "hits counted": (2, [("put", 0, "i0")], [[("get", 0)], [("get", 0)]]),
        "misses counted": (2, [], [[("get", 0)], [("get", 0)]]),
        "hit and miss and stats": (2, [("put", 0, "i0")], [[("get", 0), ("get", 1)], [("stats",)]]),
        "clear and put": (2, [("put", 0, "i0"), ("put", 1, "i1")], [[("clear",)], [("put", 2, "a")]]),
        "clear and get": (2, [("put", 0, "i0")], [[("clear",)], [("get", 0)]]),
        "stats during put": (1, [("put", 0, "i0")], [[("put", 1, "a")], [("stats",), ("len",)]]),
        "recency race": (2, [("put", 0, "i0"), ("put", 1, "i1")], [[("get", 0)], [("put", 2, "a")]]),
        "update and evict": (2, [("put", 0, "i0"), ("put", 1, "i1")], [[("put", 0, "a")], [("put", 2, "b")]]),
        "disabled": (0, [], [[("put", 0, "a")], [("get", 0)]]),
    }
    THREE = {
        "three writers": (1, [], [[("put", 0, "a")], [("put", 1, "b")], [("get", 0)]]),
        "three at capacity 2": (2, [("put", 0, "i0")], [[("put", 1, "a")], [("put", 2, "b")], [("get", 0)]]),
        "reader and clear": (2, [("put", 0, "i0")], [[("get", 0)], [("clear",)], [("put", 0, "b")]]),
        "two each": (1, [("put", 0, "i0")], [[("get", 0), ("put", 1, "a")], [("get", 1), ("put", 0, "b")]]),
    }

    def concurrent(programs):
        def scenario(t):
            name = t.pick("program", list(programs))
            size, pre, threads = programs[name]
            kk = "tuple"
            with Patched():
                c = LRUCache(max_size=size)
            m = Model(size)
            for op in pre:
                do_real(c, op, kk)
                do_model(m, op)
            hist = []
            s = Sched(t, [PATH])

            def body(ops, tid):
                for op in ops:
                    a = s.tick()
                    r = do_real(c, op, kk)
                    hist.append((tid, a, s.tick(), op, r))

            for tid, ops in enumerate(threads):
                s.spawn(lambda ops=ops, tid=tid: body(ops, tid))
            try:
                s.run()
            except Deadlock as e:
                t.fail(f"{name}: deadlock: {e}")
            for i, e in s.errors.items():
                t.fail(f"{name}: thread {i} raised {type(e).__name__}: {e}")
            stats = c.get_stats()
            t.check(stats["size"] == len(c) <= size, f"{name}: {len(c)} entries in a cache of {size}")
            # what is left, and in what order it leaves, seen through the public interface
            probes = []
            content = []
            for k in (0, 1, 2):
                content.append(("get", k))
            for n in range(max(size - 1, 0)):
                content.insert(0, ("put", 100 + n, "new"))
            for op in content:
                probes.append((op, do_real(c, op, kk)))

            def final(mm):
                mm = mm.copy()
                return mm.stats() == stats and all(same(do_model(mm, op), r) for op, r in probes)

            t.check(linearizable(hist, m, final), lambda: f"{name}: no sequential order explains {[(h[0], h[3], h[4]) for h in hist]}, statistics {stats}, content {probes}")
            t.state(name, [(h[0], h[3], h[4]) for h in hist], stats)
            t.outcome((name, tuple(h[0] for h in hist)))

        return scenario

    ck.explore("two threads", concurrent(PROGRAMS), bound=ck.q(3, 4))
    ck.explore("three threads or two operations each", concurrent(THREE), bound=ck.q(2, 3))

    def registry_threads(t):
        CacheService = empty_registry()
        with Patched():
            a = CacheService.create_cache("a", 2)
        a.put(0, "x")
        prog = t.pick("program", [("create b", "create b"), ("create b", "clear all"), ("clear all", "put a"), ("create b", "stats"), ("clear all", "clear all"), ("create a", "clear a"), ("stats", "put a"), ("lookup b", "create b")])
        s = Sched(t, [PATH])
        out = {}

        def act(i, op):
            w = op.split()
            if w[0] == "create":
                out[i] = CacheService.create_cache(w[1], 2)
            elif op == "clear all":
                CacheService.clear_all()
            elif w[0] == "clear":
                CacheService.clear_cache(w[1])
            elif w[0] == "stats":
                out[i] = CacheService.get_all_stats()
            elif w[0] == "lookup":
                out[i] = CacheService.get_cache(w[1])
            else:
                a.put(1, "y")

        with Patched():
            for i, op in enumerate(prog):
                s.spawn(lambda i=i, op=op: act(i, op))
            try:
                s.run()
            except Deadlock as e:
                t.fail(f"{prog}: deadlock: {e}")
        for i, e in s.errors.items():
            t.fail(f"{prog}: thread {i} raised {type(e).__name__}: {e}")
        made = [out[i] for i, op in enumerate(prog) if op.startswith("create")]
        for i, op in enumerate(prog):
            if op.startswith("create"):
                t.check(out[i] is CacheService.get_cache(op.split()[1]), f"{prog}: thread {i} got a cache that is not the registered one")
        t.check(CacheService.get_cache("a") is a, "registered cache replaced")
        if prog == ("create b", "create b"):
            t.check(made[0] is made[1], "two caches under one name")
        if "clear all" in prog or "clear a" in prog:
            t.check(a.get(0) is None, f"{prog}: an entry survived clearing")
        if prog == ("clear all", "put a"):
            t.check(a.get(1) in (None, "y"), "wrong value")
            t.check(len(a) <= 1, "entries survived clearing")
        if prog[0] == "lookup b":
            t.check(out[0] is None or out[0] is out[1], "lookup found a different cache")
        if "stats" in prog:
            st = out[prog.index("stats")]
            t.check(st["a"]["size"] in (1, 2) and set(st) in ({"a"}, {"a", "b"}), f"statistics {st}")
        t.state(prog, sorted(CacheService.get_all_stats()))
        t.outcome(prog)

    ck.explore("registry under threads", registry_threads, bound=ck.q(3, 4))
    def command_line(t):
        """the sizes given on the command line are the sizes in use; 0 disables"""
        opts = {"reference_fluid": ("--reference-cache-size", 512), "fluid_service_flash": ("--flash-cache-size", 100_000)}
        argv, want = [], {}
        for name, (opt, default) in opts.items():
            v = t.pick(opt, [None, 0, 1, 700])
            if v is not None:
                argv += [opt, str(v)]
            want[name] = default if v is None else v
        r = subprocess.run([sys.executable, "-c", CLI, *argv], capture_output=True, text=True)
        t.check(r.returncode == 0, lambda: f"{argv}: {r.stderr[-300:]}")
        got = json.loads(r.stdout.splitlines()[-1])
        t.check({k: got[k][0] for k in want} == want, lambda: f"{argv}: cache sizes {got}, expected {want}")
        t.check(all(got[k][1] == min(want[k], 3) for k in want), lambda: f"{argv}: entries kept {got}")
        t.step()
        t.state(argv)

    ck.explore("sizes from the command line", command_line)
    ck.assumptions.append(f"locks come from the threading module (replaced by {CoopLock.__name__})")
