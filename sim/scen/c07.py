"""C07: each iteration solves for every factor exactly; the loss never rises."""
from sim.scen.history import *
from sim.world import IllConditioned, constraint_violation, ref_iteration, ref_loss, represented, well_determined

ID = "C07"
WIDE = True
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 100000}
RULE = ("one evaluation is one history of fits, continuations, refits, rewinds, restarts and interruptions; every iteration is "
        "compared with an exact one computed independently from the model before it")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["rounding: losses are compared to 1e-8 of the squared norm of the data, exact iterations to 1e-5 in what they represent",
           "iterations whose least-squares problems have condition numbers above 1e5 are judged by their loss only, and not at all if "
           "they are above 3e5 with components of the same size (the code solves normal equations, which square them)",
           "the penalised loss of CMTF depends on the scaling, so it is not compared across the normalisation between two calls"]


def gen(rng):
    plan = gen_history(rng, ops=["continue"] * 4 + ["refit"] * 2 + ["interrupt"] * 4 + ["interrupt-fit", "load", "process", "normalize", "edit",
                                                                              "retarget", "stop", "staged"],
                       first=("fit", "staged", "staged", "interrupt-fit"), its=(1, 8), constraints=0.65)
    if rng.random() < 0.2:              # nearly the same components to start from
        plan["model"]["init"], plan["model"]["near"] = "precomputed", 10.0 ** -rng.uniform(1.5, 5)
    return plan


class Exact(History):
    starts = True

    def on_iter(self, dec, row, prev):
        spec, data, R = self.spec, self.data, self.R
        if prev is None or (row["first"] and data.kind == "cmtf" and spec["ridge"] is not None):
            return                   # (the starting point was seen with another scaling)
        s, it = row["snap"], int(row["it"])
        if constraint_violation(spec, prev) is not None or any(
                spec["nonneg"] and spec["nonneg"][m] and v.min() < 0 for m, v in zip(data.modes or [], prev.V)):
            R.probe("start violates the constraints")
            return
        rescaled = spec["ridge"] is not None and row["boundary"]
        X2 = data.norm2
        a, b = ref_loss(spec, data, prev), ref_loss(spec, data, s)
        if not rescaled and (b <= a or well_determined(spec, data, prev, 3e5, scaled=True)):
            R.check(b <= a + 1e-8 * X2 + 1e-9 * abs(a), "loss-rises", lambda: f"iteration {it} takes the loss from {a:.12g} to {b:.12g}")
        try:
            ref = ref_iteration(spec, data, prev)
        except IllConditioned:
            R.probe("ill-conditioned iteration")
            return
        R.probe("exact iterations compared")
        c = ref_loss(spec, data, ref)
        R.check(abs(b - c) <= 1e-7 * X2 + 1e-6 * abs(c), "not-optimal",
                lambda: f"iteration {it} ends with loss {b:.12g}, solving for every factor in turn gives {c:.12g}")
        R.check(same_model(data, s, ref, 1e-5), "not-exact", lambda: f"iteration {it} gives another model than solving for every factor in turn")


def run(plan, R):
    Exact(plan, R).run()
