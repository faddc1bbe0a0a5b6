"""C27: engine sessions.  All sequences of session operations (start, nested start, use, leave normally or by an error, shutdown, reconfigure,
other back end) and of launch/close failures up to a depth, on the real session classes with recording stand-ins for the engine processes,
against a reference automaton."""

from ecalc_neqsim_wrapper import java_service
from ecalc_neqsim_wrapper.cache_service import CacheService
from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
from ecalc_neqsim_wrapper.java_service import NeqsimService, Py4JConfig
from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from mc import fakejava as fj

GAS = FluidModel(composition=FluidComposition(methane=0.9, ethane=0.1), eos_model=EoSModel.SRK)
RIGHT = fj.expected_pt(fj.mixture({"methane": 0.9, "ethane": 0.1}), "SRK", 50.0, 320.0)["density"]


class BodyError(Exception):
    pass


def no_engine():
    """a process in which no engine has been started yet"""
    for k, v in list(vars(java_service).items()):
        if isinstance(v, NeqsimService):
            setattr(java_service, k, None)
    NeqsimService.reset_py4j_config()
    NeqSimFluidService.reset_instance()
    CacheService._caches.clear()


def run(ck):
    ck.bounds.update(operations=ck.q(4, 5), fewer_operations=ck.q(6, 7), sessions_kept=2, launch_failures=["ValueError", "OSError"], close_failures=1)
    ck.assumptions += ["engine processes are recording stand-ins below py4j's launch_gateway / the jneqsim module", "a stand-in that fails to close is gone afterwards (its process cannot be reached)"]

    OPS = [
        "start",
        "leave",
        "leave by error",
        "use",
        "shutdown current",
        "shutdown old",
        "launch fails",
        "launch fails badly",
        "close fails",
        "configure keep",
        "configure memory",
        "reset config",
        "start jpype",
        "leave old again",
    ]

    ESSENTIAL = ["start", "leave", "leave by error", "shutdown old", "launch fails", "close fails", "configure keep"]

    def sessions(ops, n):
        return lambda t: one(t, ops, n)

    def one(t, ops, n):
        world = fj.World()
        with fj.Installed(world):
            no_engine()
            try:
                go(t, world, ops, n)
            finally:
                no_engine()

    def go(t, world, ops, n):
        # reference automaton
        engine = None  # None | "py4j" | "jpype"
        current = None  # the live service object
        stack = []  # sessions entered and not left
        old = []  # services whose engine was shut down
        config = None
        keep_of = None  # shutdown_on_exit of the running engine
        for i in range(n):
            op = t.pick(f"op{i}", ops)
            t.step()
            if op == "start":
                if world.fail_launch is not None and engine is None:
                    planned = type(world.fail_launch)
                    err = t.raises(lambda: NeqsimService.factory(use_jpype=False).initialize(), "a failing launch")
                    t.check(planned is not ValueError or "launch" in str(err), f"unclear launch error {err!r}")
                elif engine == "jpype":
                    t.raises(lambda: NeqsimService.factory(use_jpype=False).initialize(), "second back end", ProgrammingError)
                else:
                    s = NeqsimService.factory(use_jpype=False).initialize()
                    t.check(current is None or s is current, "a second engine session object while one is running")
                    if engine is None:
                        keep_of = config is not None and not config.shutdown_on_exit
                        t.check(len(world.running()) == 1, "starting did not start exactly one engine")
                        want = f"-Xmx{(config or Py4JConfig()).maximum_memory}"
                        t.check(world.started[-1].options.get("javaopts") == [want], f"engine options {world.started[-1].options}, expected {want}")
                    engine, current = "py4j", s
                    t.check(s.__enter__() is s, "entering gives another object")
                    stack.append(s)
            elif op == "start jpype":
                if engine == "py4j":
                    t.raises(lambda: NeqsimService.factory(use_jpype=True).initialize(), "second back end", ProgrammingError)
                else:
                    s = NeqsimService.factory(use_jpype=True).initialize()
                    t.check(current is None or s is current, "a second session object")
                    engine, current = "jpype", s
                    s.__enter__()
                    stack.append(s)
            elif op in ("leave", "leave by error", "leave old again"):
                if op == "leave old again":
                    if not old:
                        continue
                    s = old[-1]
                elif not stack:
                    continue
                else:
                    s = stack.pop()
                e = BodyError("x") if op == "leave by error" else None
                swallowed = s.__exit__(type(e) if e else None, e, None)
                t.check(not swallowed, "the session hides an error raised in its body")
                if s is current and engine == "py4j" and not keep_of:
                    engine, current = None, None
                    old.append(s)
                    check_gone(t, world)
            elif op == "shutdown current":
                if current is None:
                    continue
                current.shutdown()
                if engine == "py4j":
                    old.append(current)
                    engine, current = None, None
                    check_gone(t, world)
            elif op == "shutdown old":
                if not old:
                    continue
                old[-1].shutdown()
            elif op == "use":
                pass  # after every operation, see below
            elif op == "launch fails":
                world.fail_launch = ValueError("could not find java")
            elif op == "launch fails badly":
                world.fail_launch = OSError("out of memory")
            elif op == "close fails":
                world.fail_close = 1
            elif op.startswith("configure"):
                cfg = Py4JConfig(shutdown_on_exit=False) if op.endswith("keep") else Py4JConfig(maximum_memory="512M")
                if engine is not None:
                    t.raises(lambda: NeqsimService.configure_py4j(cfg), "configuring a running engine", RuntimeError)
                else:
                    NeqsimService.configure_py4j(cfg)
                    config = cfg
            elif op == "reset config":
                NeqsimService.reset_py4j_config()
                config = None
            probe(t, world, engine, current, old, op)
            t.state(engine, len(stack), len(old), config, keep_of, len(world.started))
        # from here a new session must work, whatever happened
        world.fail_launch, world.fail_close = None, 0
        kind = engine == "jpype"
        with NeqsimService.factory(use_jpype=kind).initialize() as s:
            t.check(NeqsimService.instance() is s, "the new session is not the current one")
            t.same(NeqSimFluidService.instance().flash_pt(GAS, 50.0, 320.0).density, RIGHT, "a calculation in a new session")
        t.outcome((engine, len(world.started), len(world.running())))

    def check_gone(t, world):
        t.check(not world.running(), f"{len(world.running())} engines still run after the session ended")
        t.check(all(s["size"] == 0 for s in CacheService.get_all_stats().values()), "engine objects stay cached after the session ended")

    def probe(t, world, engine, current, old, op):
        t.check(len(world.running()) <= 1, f"{len(world.running())} engines are running after {op}")
        for g in world.started:
            t.check(g.closed <= 1, f"engine {g.java_process.pid} was closed {g.closed} times")
        if engine is None:
            t.check(not world.running(), f"an engine runs outside any session after {op}")
            t.raises(NeqsimService.instance, f"asking for the engine outside a session after {op}", ProgrammingError)
            t.raises(lambda: NeqSimFluidService.instance().flash_pt(GAS, 50.0, 320.0), f"calculating outside a session after {op}", ProgrammingError)
        else:
            t.check(NeqsimService.instance() is current, f"the running engine is not available after {op}")
            t.check(engine != "py4j" or len(world.running()) == 1, f"the engine of an open session is gone after {op}")
            t.same(NeqSimFluidService.instance().flash_pt(GAS, 50.0, 320.0).density, RIGHT, f"calculating after {op}")
            T = 320.0 + len(world.started)
            NeqSimFluidService.instance().flash_pt(GAS, 50.0, T)  # another one that is really computed
        for s in old:
            if s is not current:
                t.raises(s.get_neqsim_module, "using a session that has ended", ProgrammingError)

    ck.explore("session histories", sessions(OPS, ck.q(4, 5)))
    ck.explore("longer session histories", sessions(ESSENTIAL, ck.q(6, 7)))

    def with_blocks(t):
        """nested with-statements with errors at every level"""
        world = fj.World()
        with fj.Installed(world):
            no_engine()
            try:
                depth = t.pick("nesting", [1, 2, 3])
                err_level = t.pick("error raised at level", [None, *range(depth)])
                rounds = t.pick("rounds", [1, 2])
                keep = t.flip("keep engine")
                fail = t.pick("failing close in round", [None, *range(rounds)])
                jp = t.flip("jpype")
                if keep:
                    NeqsimService.configure_py4j(Py4JConfig(shutdown_on_exit=False))
                for r in range(rounds):
                    world.fail_close = 1 if fail == r else 0

                    def level(k):
                        with NeqsimService.factory(use_jpype=jp).initialize():
                            t.step()
                            t.check(len(world.running()) == (0 if jp else 1), "exactly one engine runs in a session")
                            t.same(NeqSimFluidService.instance().flash_pt(GAS, 50.0, 320.0).density, RIGHT, "calculating in a session")
                            if k + 1 < depth:
                                level(k + 1)
                            if err_level == k:
                                raise BodyError(str(k))

                    if err_level is None:
                        level(0)
                    else:
                        e = t.raises(lambda: level(0), "the error of the body", BodyError)
                        t.check(str(e) == str(err_level), f"another error: {e}")
                    if not jp and not keep:
                        check_gone(t, world)
                        t.raises(NeqsimService.instance, "outside a session", ProgrammingError)
                    else:
                        t.check(len(world.running()) <= 1, "more than one engine")
                t.check(all(g.closed <= 1 for g in world.started), "an engine was closed twice")
                t.state(depth, err_level, rounds, keep, fail, jp, len(world.started))
                t.outcome((len(world.started), len(world.running())))
            finally:
                no_engine()

    ck.explore("nested with blocks", with_blocks)

    def settings(t):
        text = t.pick("memory", ["2G", "512M", "4096m", "1T", "64k", "", "G", "2GB", "2 G", "-1G", "2.5G", "512", "2g;rm"])
        good = text in ("2G", "512M", "4096m", "1T", "64k")
        t.step()
        if good:
            t.check(Py4JConfig(maximum_memory=text).maximum_memory == text, "memory setting")
        else:
            t.raises(lambda: Py4JConfig(maximum_memory=text), f"memory setting {text!r}", ValueError)
        t.raises(lambda: NeqsimService.factory(use_jpype=t.flip("jpype"))() if False else NeqsimService(), "constructing the base class", Exception)

    ck.explore("memory settings", settings)
