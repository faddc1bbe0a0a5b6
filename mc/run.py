import importlib
import json
import os
import sys
import traceback


def main(argv):
    from mc import core

    if argv and argv[0] == "replay":
        return replay(argv[1])
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    import libecalc

    src = os.path.realpath(os.path.dirname(libecalc.__file__))
    want = os.path.realpath(os.path.join(core.REPO, "src", "libecalc"))
    if src != want:
        print(f"harness error: libecalc imported from {src}, not {want}")
        return 2
    with core.quiet():
        ck = core.Checker(prop, tier)
        try:
            mod = importlib.import_module(f"mc.checks.{prop.lower()}")
            mod.run(ck)
            return core.finish(ck)
        except core.HarnessError as e:
            if ck.total.found:
                return core.finish(ck)
            print(f"[{prop}] harness error: {e}")
            return 2
        except Exception:
            traceback.print_exc()
            print(f"[{prop}] harness error")
            return 2


def replay(path):
    from mc import core

    rec = json.load(open(path))
    with core.quiet():
        ck = core.Checker(rec["property"], rec["tier"])
        ck.explore = lambda name, scenario, **kw: ck.scenarios.__setitem__(name, scenario)  # collect only
        importlib.import_module(f"mc.checks.{rec['property'].lower()}").run(ck)
        r = core.Result()
        t = core.execute(rec["scenario"], ck.scenarios[rec["scenario"]], rec["choices"], None, r)
    for a, b in t.labels:
        print(f"  {a} = {b}")
    for f in r.found:
        print("REPRODUCED:", f.message)
        print("\n".join(f.context))
    if not r.found:
        print("not reproduced")
    return 1 if r.found else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
