"""C09: a reused decomposer behaves like a new one."""
from sim.core import Recorder
from sim.scen.history import *
from sim.world import snap_tensor

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one evaluation is one history of one decomposer (and of others in the same process) with several fits in it; every fit is "
        "repeated by a new decomposer in a process that did nothing else, from the same random state, and compared bit for bit")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["numpy and LAPACK give the same bits for the same input in every process",
           "a starting point the user passes in is the user's: the fit works on it in place, by design"]


def gen(rng):
    p = gen_history(rng, ops=["refit"] * 5 + ["interrupt-fit"] * 2 + ["staged", "continue", "interrupt", "load", "process", "normalize", "edit",
                                                                     "retarget", "noop", "stop"], tols=(-1, -1, 1e-2), most=6,
                    first=("fit", "fit", "interrupt-fit", "staged"))
    p["ops"].append(dict(p["ops"][0], op="refit", n=rng.randint(1, 6), data=rng.choice([0, 1] if p["model"]["init"] == "path" else [0, 1, 2]), api=rng.choice(["fit", "fit_transform"])))
    p["others"] = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        data, model = gen_world(rng)
        p["others"].append(dict(data=data, model={**model, "tol": -1}, n=rng.randint(0, 3)))
    return p


class Reused(History):
    read = True
    refuse = False

    def __init__(self, plan, R):
        super().__init__(plan, R)
        self.fits, self.kept = [], []

    def before(self, op):
        self.state = np.random.get_state()
        self.old = [(n, hash_all(obj)) for n, obj in self.kept]

    def after(self, op, out):
        R, kind = self.R, out["kind"]
        if kind in FRESH:
            for (n, was), (_, obj) in zip(self.old, self.kept):
                R.check(hash_all(obj) == was, "earlier-result", lambda: f"the result of operation {n} was changed by a later {kind}")
            rows = [(int(r["it"]), r["snap"], r["measures"]) for r in out["rows"]]
            if not out["hits"]:
                self.fits.append(dict(op=op, data=self.data.spec, file=self.data.start_file, spec=self.spec, offset=self.offset, state=self.state, rows=rows, err=out["err"], where=out["fired"],
                                      end=None if self.unborn else (snapshot(self.dec), int(self.dec.current_iteration), measures(self.dec))))
        if out["returned"] is not None:
            self.kept.append((len(self.fits), out["returned"]))


def hash_all(x):
    from sim.core import hash_arrays
    if isinstance(x, (list, tuple)):
        return [hash_all(y) for y in x]
    if isinstance(x, np.ndarray):
        return hash_arrays([x])
    return hash_arrays(snap_tensor(x).arrays())


def used(plan, folder):
    R = Recorder()
    R.dir = folder
    for o in plan["others"]:
        seed(plan["np_seed"] + 5)
        with quiet():
            start(make(o["model"], max_its=o["n"]), Data(o["data"]), o["model"])
    h = Reused(plan, R)
    h.run()
    return R.export(), h.fits


def fresh(plan, f):
    """The same fit by a new decomposer in a new process."""
    spec, op = f["spec"], f["op"]
    data = Data(f["data"])
    data.start_file = f["file"]
    obs = SimLogger(read=True)
    dec = make(spec, loggers=[obs])
    kernels.reset()
    if op["op"] == "interrupt-fit":
        kernels.plan = {1 + frac(op["at"], op["span"]): op["exc"]}
    np.random.set_state(f["state"])
    err = None
    with quiet(), kernels.on():
        try:
            if op["op"] == "staged":
                start(dec, data, spec, max_its=0)
                dec.continue_fit(max_its=f["offset"] + op["n"])
            else:
                start(dec, data, spec, method=op["api"], max_its=0 if op["op"] == "init" else f["offset"] + op["n"])
        except BaseException as e:
            if not kernels.fired or type(e).__name__ not in EXPECTED:
                raise
            err = type(e).__name__
    kernels.active = False
    end = None
    if obs.rows or err is None:
        with quiet():
            end = (snapshot(dec), int(dec.current_iteration), measures(dec))
    return dict(rows=[(int(r["it"]), r["snap"], r["measures"]) for r in obs.rows], err=err, where=list(kernels.fired), end=end)


def run(plan, R):
    for o in plan["others"]:
        validate(o["data"], o["model"])
    export, fits = in_child(used, plan, R.dir)
    R.absorb(export)
    for n, f in enumerate(fits):
        g = in_child(fresh, plan, f)
        what = f"{f['op']['op']} number {n + 1} of a reused decomposer"
        R.check((f["err"], f["where"]) == (g["err"], g["where"]), "failure", lambda: f"{what} failed with {f['err']} {f['where']}, a new one with {g['err']} {g['where']}")
        R.check([r[0] for r in f["rows"]] == [r[0] for r in g["rows"]], "iterations",
                lambda: f"{what} did iterations {[r[0] for r in f['rows']]}, a new one does {[r[0] for r in g['rows']]}")
        for (it, a, x), (_, b, y) in zip(f["rows"], g["rows"]):
            R.check(a.same(b), "model", lambda: f"{what}: iteration {it} differs from that of a new one (by {a.distance(b):.3g}, relative)")
            R.check(same_numbers(x, y), "measures", lambda: f"{what}: iteration {it} reports {x}, a new one {y}")
        if f["end"] is None:
            continue
        (a, i, x), (b, j, y) = f["end"], g["end"]
        R.check(a.same(b), "model", lambda: f"{what} ends with another model than a new one (by {a.distance(b):.3g}, relative)")
        R.check(i == j, "count", lambda: f"{what} counts {i} iterations, a new one {j}")
        R.check(same_numbers(x, y), "measures", lambda: f"{what} reports {x}, a new one {y}")
        R.event("compared", n=n, model=a.hash)


def same_numbers(x, y):
    return all(x[k] == y[k] or (x[k] != x[k] and y[k] != y[k]) for k in x)
