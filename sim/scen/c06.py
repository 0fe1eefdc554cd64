"""C06: reported fit measures always match the model and the data."""
from sim.scen.history import *
from sim.world import measure_mismatch, ref_measures

ID = "C06"
WIDE = True
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 200000}
RULE = ("one evaluation is one history of fits, continuations, refits, rewinds, interruptions, failed writes, edits, changes of target and "
        "restarts; all five measures are recomputed from the data and the model at every iteration and after every operation")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["rounding of the measures stays below 1e-9 of the squared norm of the data plus 1e-7 of the value"]


def gen(rng):
    return gen_history(rng, most=7, noise=rng.choice([None, None, None, 0.0]))


class Measures(History):
    read = True

    def on_iter(self, dec, row, prev):
        self.R.event("measures", **row["measures"])
        self.compare(row["measures"], row["snap"], f"at iteration {int(row['it'])}")

    def after(self, op, out):
        if self.unborn:
            return
        self.compare(measures(self.dec), self.now, f"after {out['kind']}{' failed with ' + out['err'] if out['err'] else ''}")
        s = snapshot(self.dec)
        self.R.check(s.same(self.now), "reading-changes", "reading the measures changed the model")

    def compare(self, got, s, when):
        bad = measure_mismatch(got, ref_measures(self.spec, self.data, s), self.data)
        self.R.check(bad is None, "measure", lambda: f"{when}: {bad}")


def run(plan, R):
    Measures(plan, R).run()
