"""python -m sim check C01 | replay FILE | determinism C01 N"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams  # noqa: E402  (before the code under test)
from sim import sched  # noqa: E402, F401
import tenkit  # noqa: E402

if not os.path.realpath(tenkit.__file__ or list(tenkit.__path__)[0]).startswith(
        os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/"):
    raise SystemExit(f"tenkit is not imported from /repo: {tenkit.__file__}")
import warnings  # noqa: E402
warnings.filterwarnings("ignore")
from sim import engine  # noqa: E402


def scenario(prop):
    return importlib.import_module(f"sim.scen.{prop.lower()}")


def main(argv):
    cmd = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if cmd == "check":
        if len(argv) > 3:
            tier = argv[3]
        runs = int(argv[2]) if len(argv) > 2 and argv[2] not in ("", "-") else None
        return engine.check(scenario(argv[1]), tier, seed, runs=runs, verbose=bool(os.environ.get("VERIF_VERBOSE")))
    if cmd == "replay":
        with open(argv[1]) as h:
            rep = json.load(h)
        scen = scenario(rep["property"])
        root = engine.scratch_root()
        try:
            res = engine.Pool(scen, 1, root, keep_log=True).one(rep["plan"])
        finally:
            import shutil
            shutil.rmtree(root, ignore_errors=True)
        for l in res["log"]:
            print(l)
        print(f"{res['status']}: {res.get('cls')}: {res.get('msg')}")
        same = engine.is_bad(res, scen) and res["cls"] == rep["violation"]["cls"]
        exact = same and res["digest"] == rep["digest"]
        print("reproduced exactly" if exact else "reproduced with another event log" if same else "not reproduced")
        if same:
            print(f"VIOLATION property={rep['property']} replay={argv[1]}")
        return 1 if same else 0
    if cmd == "plan":
        print(json.dumps(engine.plan_for(scenario(argv[1]), seed, int(argv[2])), indent=1))
        return 0
    if cmd == "one":                 # run one index here, with its output
        scen = scenario(argv[1])
        root = engine.scratch_root()
        os.environ["VERIF_DEBUG"] = "1"
        res = engine.Pool(scen, 1, root, keep_log=True).one(engine.plan_for(scen, seed, int(argv[2])))
        import shutil
        shutil.rmtree(root, ignore_errors=True)
        for l in res["log"]:
            print(l)
        print(res["status"], res.get("cls"), res.get("msg"), res["faults"], res["probes"], res["steps"])
        return 0
    if cmd == "digests":             # event-log digests of many runs, for the determinism proof
        scen = scenario(argv[1])
        root = engine.scratch_root()
        pool = engine.Pool(scen, int(os.environ.get("VERIF_WORKERS", 8)), root)
        n, out, nxt = int(argv[2]), {}, 0
        while len(out) < n:
            while len(pool.live) < pool.width and nxt < n:
                pool.start(nxt, engine.plan_for(scen, seed, nxt)); nxt += 1
            for i, r in pool.poll():
                out[i] = (r["status"], r["digest"])
        import shutil
        shutil.rmtree(root, ignore_errors=True)
        for i in sorted(out):
            print(i, *out[i])
        return 0
    raise SystemExit(__doc__)


sys.exit(main(sys.argv[1:]))
