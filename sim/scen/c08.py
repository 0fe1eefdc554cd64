"""C08: requested constraints hold after every iteration."""
from sim.scen.history import *
from sim.world import constraint_violation, vanishing, well_determined

ID = "C08"
WIDE = True
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 120000}
RULE = ("one evaluation is one history of fits, continuations, refits, rewinds, restarts and interruptions of a constrained model; "
        "constraints, shapes and finiteness are checked after every iteration and on every model returned or stored")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["orthonormality is checked when the data determine the factor (no component died)"]


def gen(rng):
    plan = gen_history(rng, ops=["continue"] * 4 + ["refit"] * 2 + ["interrupt"] * 4 + ["interrupt-fit", "load", "process", "process", "normalize",
                                                                              "edit", "retarget", "stop", "staged"],
                       first=("fit", "staged", "interrupt-fit"), its=(1, 8), constraints=0.9, noise=rng.choice([None, None, 0.0]))
    if rng.random() < 0.25:             # a component much weaker than the others
        weak = 10.0 ** -rng.uniform(1, 5.8)
        for d in plan["datas"]:
            d["weak"] = weak
    elif rng.random() < 0.15:           # nearly the same components to start from
        plan["model"]["init"], plan["model"]["near"] = "precomputed", 10.0 ** -rng.uniform(1.5, 5)
    return plan


class Constrained(History):
    refuse = False
    starts = True

    def on_iter(self, dec, row, prev):
        ok = prev is not None and not vanishing(self.data, prev) and well_determined(self.spec, self.data, prev, 1e6, 1e-13)
        self.judge(row["snap"], f"after iteration {int(row['it'])}", ok)
        self.sure = ok

    def before(self, op):
        self.sure = None

    def after(self, op, out):
        if out["returned"] is not None:
            t = out["returned"]
            t = t[0] if isinstance(t, tuple) else t
            self.R.check(t is self.dec.decomposition, "returned", "fit_transform returned something else than the fitted model")
        if self.unborn or out["kind"] in ("edit", "normalize", "retarget") or self.sure is None:
            return
        if out["err"] is None:
            self.judge(snapshot(self.dec), f"after {out['kind']}", self.sure)
            if self.path:
                label = self.done - 1
                found, latest = load_labels(self.data, self.spec, self.path, 0)
                self.R.check(latest[0] == label, "stored", f"the latest checkpoint is {latest}, after iteration {label}")
                self.judge(latest[1], "in the stored model", self.sure)

    def judge(self, s, when, sure):
        spec, data, R = self.spec, self.data, self.R
        r = spec["rank"]
        if spec["kind"] == "pf2":
            sl = data.slices
            want = [(sl[0].shape[0], r), (r, r), (len(sl), r), (r,)] + [(x.shape[1], r) for x in sl]
        else:
            want = [(n, r) for n in data.X.shape] + [(r,)] + [(y.shape[1], r) for y in data.Ys or []]
        R.check(s.shapes == want, "shape", lambda: f"{when} the model has shapes {s.shapes}, should be {want}")
        R.check(all(np.all(np.isfinite(a)) for a in s.arrays()), "not-finite", f"{when} the model has entries that are not finite")
        for m, f in enumerate(s.f):
            if spec["nonneg"] and spec["nonneg"][m]:
                R.check(f.min() >= 0, "negative", lambda: f"{when} factor {m} has a negative entry ({f.min():.3g})")
        for m, v in zip(data.modes or [], s.V):
            if spec["nonneg"] and spec["nonneg"][m]:
                R.check(v.min() >= 0, "negative", lambda: f"{when} the factor of the matrix coupled to mode {m} has a negative entry ({v.min():.3g})")
        if not sure:
            R.probe("undetermined factors")
            return
        bad = constraint_violation(spec, s)
        R.check(bad is None, "constraint", lambda: f"{when} {bad}")


def run(plan, R):
    Constrained(plan, R).run()
