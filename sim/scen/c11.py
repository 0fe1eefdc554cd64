"""C11: the iteration budget and stopping rule are obeyed."""
from sim.scen.history import *
from sim.world import ref_loss, ref_sse

ID = "C11"
WIDE = True
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 120000}
HANG_IS_VIOLATION = True
RULE = ("one evaluation is one history of fits, continuations, refits, rewinds, restarts and interruptions with convergence "
        "tolerances; the number and numbering of the iterations of every call is compared with the stopping rule recomputed from the models")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["decisions within 5% of a tolerance, or on losses below 1e-9 of the squared norm of the data, are not judged",
           "the relative change is taken from the model at the start of the iteration to the one at its end; loading a checkpoint or "
           "giving new data forgets it, continuing does not"]


def gen(rng):
    still = rng.random() < 0.15         # tests switched off by a tolerance of zero, and losses that stop changing at all
    default = not still and rng.random() < 0.08     # nothing said about when to stop
    p = gen_history(rng, ops=["continue"] * 5 + ["refit"] * 2 + ["interrupt"] * 3 + ["interrupt-fit", "load", "process", "normalize",
                                                                           "retarget", "noop", "noop", "staged"],
                    tols=(-1, 3e-2, 1e-2, 1e-3, 1e-4), its=(1, 60) if still or default else (1, 12), noise=rng.choice([0.0, 0.0, 0.3]) if still else rng.choice([0.3, 0.03]) if default else rng.choice([None, None, 0.02]),
                    most=4 if still or default else 6)
    if "rel_tol" in p["model"]:
        p["model"]["rel_tol"] = rng.choice([-1, -1, 0.3, 0.1, 1e-2, 1e-3])
    p["model"]["max_its"] = rng.randint(0, 12)
    if still:
        p["model"].update(tol=0, rank=1, init=rng.choice(["random", "svd"]), freq=None, max_its=rng.choice([40, 60]))
        if "rel_tol" in p["model"]:
            p["model"]["rel_tol"] = 0
        for d in p["datas"]:
            d["rank"] = 1
    if default:
        p["model"].update(tol=1e-6, max_its=rng.choice([50, 1000]), omit=["convergence_tol", "rel_loss_tol"], rank=rng.choice([1, 1, 2]))
        if "rel_tol" in p["model"]:
            p["model"]["rel_tol"] = 1e-10
        if p["model"]["max_its"] == 1000:
            p["model"]["omit"].append("max_its")
            p["model"]["rank"] = 1
    for op in p["ops"]:
        op["own"] = rng.random() < 0.25
        if op["op"] in ("fit", "staged") and rng.random() < 0.1:
            op["n"] = 1
    if default and rng.random() < 0.08:              # the whole default budget
        p["model"].update(tol=-1, omit=["max_its"], max_its=1000, init="random", freq=None)
        if "rel_tol" in p["model"]:
            p["model"]["rel_tol"] = -1
        p["ops"] = p["ops"][:1]
        p["ops"][0].update(op="fit", own=True)
        p["loggers"], p["file"] = [], False
    return p


class Stopping(History):
    starts = True

    def before(self, op):
        if op["op"] in ("load", "process", "retarget"):
            self.change = None
        if op["op"] in FRESH:
            self.change, self.unsure = None, False

    def stop_loss(self, s):
        return ref_loss(self.spec, self.data, s) if self.spec["kind"] == "pf2" else ref_sse(self.data, s)

    def met(self, s):
        """Is the convergence test met?  True, False or None (too close to call)."""
        spec, X2 = self.spec, self.data.tensor_norm2
        L = self.stop_loss(s)
        if L < 1e-9 * self.data.norm2 and (spec["tol"] > 0 or spec.get("rel_tol", -1) > 0):
            return None
        answers = []
        if self.change is not None and spec["tol"] > 0:
            r = abs(self.change) / spec["tol"]
            if 1e-13 * self.data.norm2 / L > 0.01 * spec["tol"]:
                return None
            answers.append(None if 0.95 < r < 1.05 else r < 1)
        if spec.get("rel_tol", -1) > 0:
            r = L / X2 / spec["rel_tol"]
            answers.append(None if 0.95 < r < 1.05 else r < 1)
        return True if True in answers else None if None in answers else False

    def after(self, op, out):
        R, kind = self.R, out["kind"]
        rows = [r["snap"] for r in out["rows"]]
        its = [int(r["it"]) for r in out["rows"]]
        c0 = out["c0"]
        if kind not in CALLS:
            if not self.unborn and kind in ("load", "process"):
                R.check(int(self.dec.current_iteration) == self.done, "count", f"after {kind} the decomposer counts {self.dec.current_iteration} "
                                                                               f"iterations, should be {self.done}")
            return
        R.check(its == list(range(c0, c0 + len(its))), "numbering", f"{kind} after {c0} iterations did iterations {its}")
        R.check(c0 + len(its) <= max(out["budget"], c0), "budget", f"{kind} did iterations {its} with a limit of {out['budget']}")
        if not self.unborn:
            R.check(int(self.dec.current_iteration) == c0 + len(its), "count",
                    lambda: f"after {kind} the decomposer counts {self.dec.current_iteration} iterations, {c0 + len(its)} are done")
        if self.unsure:
            return
        for it, row in zip(its, out["rows"]):
            if row["prev"] is None:
                R.probe("starting point unknown")
                continue
            m = self.met(row["prev"])
            if m is None:
                R.probe("too close to call")
                self.unsure = True
                return
            R.check(m is False, "no-stop", f"{kind}: iteration {it} was done although the convergence test was met")
            a, b = self.stop_loss(row["prev"]), self.stop_loss(row["snap"])
            self.change = (a - b) / max(a, 1e-300)
        if out["err"] is None and c0 + len(its) < out["budget"]:
            m = self.met(rows[-1] if rows else self.now)
            if m is None:
                R.probe("too close to call")
                self.unsure = True
                return
            R.check(m, "stopped-early", lambda: f"{kind} stopped after {c0 + len(its)} of {out['budget']} iterations, but the convergence test is not "
                                                f"met (change {self.change})")
            R.probe("converged")
        elif out["err"] is None:
            R.probe("budget used up")


def run(plan, R):
    Stopping(plan, R).run()
