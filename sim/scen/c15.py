"""C15: an interrupted fit stays consistent and can be continued."""
from sim.scen.history import *
from sim.world import constraint_violation, ref_loss

ID = "C15"
WIDE = True
LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 120000}
RULE = ("one evaluation is one history in which fits and continued fits are stopped by Ctrl-C, failed allocations and failed linear "
        "algebra at planned kernel calls (and by a user's logger), then continued, refitted, rewound or restarted")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK + ["numerical kernels: real, after a counter that raises the planned exceptions"]
ASSUMES = ["a numerical step is a call of a numerical kernel (svd, qr, eigh, nnls, ...); exceptions come from there or from a logger",
           "an iteration whose logging fails does not count as completed"]


def gen(rng):
    p = gen_history(rng, ops=["interrupt"] * 8 + ["continue"] * 4 + ["interrupt-fit"] * 2 + ["load", "process", "normalize", "noop", "stop", "refit"],
                    first=("interrupt-fit", "interrupt-fit", "fit", "staged"), its=(1, 7), constraints=0.6, most=8)
    for op in p["ops"]:
        op.pop("disk", None)
    return p


class Interrupted(History):
    starts = True

    def feasible(self, s):
        nn = self.spec["nonneg"]
        return constraint_violation(self.spec, s) is None and not any(nn and nn[m] and v.min() < 0 for m, v in zip(self.data.modes or [], s.V))

    def no_worse(self, a, b, what):
        x, y = ref_loss(self.spec, self.data, a), ref_loss(self.spec, self.data, b)
        self.R.check(y <= x + 1e-8 * self.data.norm2 + 1e-9 * abs(x), "worse", lambda: f"{what} changes the loss from {x:.12g} to {y:.12g}")

    def on_iter(self, dec, row, prev):
        if prev is None or not self.feasible(prev) or (self.rescaled() and row["boundary"]):
            return
        self.no_worse(prev, row["snap"], f"iteration {int(row['it'])}")

    def rescaled(self):
        return self.spec["ridge"] is not None and self.spec["kind"] != "pf2"

    def before(self, op):
        self.entry = None if self.unborn or op["op"] in FRESH else snapshot(self.dec)

    def after(self, op, out):
        R, dec, kind, rows = self.R, self.dec, out["kind"], out["rows"]
        its = [int(r["it"]) for r in rows]
        fired = out["fired"]
        if fired:
            R.check(out["err"] == fired[0][2], "swallowed", lambda: f"{fired[0][2]} in {fired[0][1]} during {kind}: the caller saw {out['err']}")
        if kind not in CALLS:
            return
        c0 = out["c0"]
        R.check(its == list(range(c0, c0 + len(its))), "numbering", f"{kind} after {c0} iterations did iterations {its}")
        if self.unborn:
            R.probe("interrupted before the first iteration")
            return
        R.check(int(dec.current_iteration) == self.done, "count",
                lambda: f"after {kind} ({out['err']}) the decomposer counts {dec.current_iteration} iterations, {self.done} are completed")
        if out["err"] is None:
            R.check(c0 + len(its) == max(out["budget"], c0), "budget", f"{kind} after {c0} iterations did {its}, the limit is {out['budget']}")
        s = snapshot(dec)
        before = rows[-1]["snap"] if rows else self.entry
        R.check(all(np.all(np.isfinite(a)) for a in s.arrays()), "not-finite", f"after {kind} ({out['err']}) the model is not finite")
        if before is None:
            return
        R.check(s.shapes == before.shapes, "shape", lambda: f"{kind} ({out['err']}) changed the shapes from {before.shapes} to {s.shapes}")
        R.check(dec.rank == self.spec["rank"] == s.f[0].shape[1], "rank", f"the rank became {dec.rank}")
        if out["err"] is not None:
            R.probe("interrupted in the middle of an iteration" if not rows or not s.same(rows[-1]["snap"]) else "interrupted between factors")
            if self.feasible(before) and not (self.rescaled() and not rows):
                self.no_worse(before, s, f"{out['err']} after iteration {self.done - 1}")
            if self.feasible(before):
                nn = self.spec["nonneg"]
                for m, f in enumerate(s.f):
                    R.check(not (nn and nn[m]) or f.min() >= 0, "negative", f"{out['err']} left factor {m} with a negative entry")


def run(plan, R):
    Interrupted(plan, R).run()
