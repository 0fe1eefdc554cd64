"""C04: a resumed run continues the run it came from."""
import os
import shutil

from sim.scen.common import *

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("one evaluation is one chain of process lifetimes: a checkpointing fit that ends cleanly, is stopped, or dies at "
        "a planned iteration, then resumed in fresh processes from the latest or an older checkpoint, compared with the "
        "uninterrupted run")
MEASURE = "distinct (model kind, way of resuming, how the predecessor ended, latest/older checkpoint, round, frequency, constraints)"
STUB = STUB_NONE + ["process death: the lifetime is abandoned without any clean-up, between two operations of the fit"]
ASSUMES = ["rounding differences between equal states stay below 1e-6 over the few iterations of a run",
           "resuming from the final checkpoint of a converged run does one more iteration, because convergence compares two iterations"]


class Died(BaseException):
    pass


def gen(rng):
    data, model = gen_world(rng)
    model["freq"] = rng.choice([1, 1, 2, 3, 4, None])
    model["max_its"] = rng.randint(4, 14) if rng.random() < 0.97 else rng.randint(30, 55)
    model["tol"] = rng.choice([-1, -1, -1, 1e-2, 1e-3])
    first = dict(end=rng.choice(["die", "die", "budget", "budget", "done"]), at=rng.random(), store=rng.random() < 0.4, via=rng.choice(["init", "init", "call"]))
    rounds = [dict(api=rng.choice(["load", "load", "load", "from_checkpoint", "path"]), latest=rng.random() < 0.5, label=rng.random(),
                   same_file=rng.random() < 0.8, store=rng.random() < 0.4, via=rng.choice(["init", "init", "call"]), end=rng.choice(["done", "done", "die", "budget"]), at=rng.random())
              for _ in range(rng.choice([1, 1, 2, 3]))]
    return dict(data=data, model=model, first=first, rounds=rounds, loggers=pick_loggers(rng, 1))


def lifetime(plan, path, stop, max_its, resume, store_to, store=False, via="init"):
    """One process.  stop: die when that many iterations are logged here."""
    spec, data = dict(plan["model"]), Data(plan["data"])
    seed(plan["np_seed"])
    obs = SimLogger(read=True)
    out = {}
    init = spec["init"]
    if resume is not None and resume["api"] != "load":
        init = "from_checkpoint" if resume["api"] == "from_checkpoint" else path
    dec = make(spec, path=store_to, loggers=make_loggers(plan["loggers"]) + [obs], max_its=max_its if via == "init" else 3, init=init)
    kw = {} if via == "init" else {"max_its": max_its}      # the limit is given to the call instead

    def on_log(d, row):
        if stop is not None and len(obs.rows) > stop:
            obs.rows.pop()
            raise Died
    obs.on_log = on_log
    with quiet():
        try:
            if resume is None:
                start(dec, data, spec, **kw)
            elif resume["api"] == "load":
                seed(plan["np_seed"] + 99)       # a new process has other random numbers
                attach(dec, data)
                dec.load_checkpoint(path, resume["label"])
                out["loaded"] = (snapshot(dec), int(dec.current_iteration), measures(dec))
                dec.continue_fit(**kw)
            else:
                seed(plan["np_seed"] + 99)
                fit(dec, data, **kw, **({"initial_decomposition": path} if resume["api"] == "from_checkpoint" else {}))
            out["returned"] = snapshot(dec)
            if store and spec["ridge"] is None and dec.current_iteration > 0:
                # the user tidies the model up and stores it again
                if spec["kind"] != "pf2":
                    dec.decomposition.normalize_components()
                dec.store_checkpoint()
                out["tidied"] = snapshot(dec)
            out["current"] = int(dec.current_iteration)
        except Died:
            pass
    out["rows"] = [(int(r["it"]), r["snap"], r["measures"]["loss"]) for r in obs.rows]
    return out


def look(plan, path):
    return load_labels(Data(plan["data"]), plan["model"], path, 60) if os.path.exists(path) else ({}, (None, "no file"))


def run(plan, R):
    spec = plan["model"]
    validate(plan["data"], spec)
    if spec["max_its"] < 1 or not plan["rounds"]:
        raise InvalidPlan("rounds")
    ref = trajectory(plan["data"], spec, plan["np_seed"])
    refuse_degenerate(spec, ref["snaps"])
    data = Data(plan["data"])
    X2 = data.norm2
    N = len(ref["its"])
    if not N:
        raise InvalidPlan("no iterations")
    if spec["tol"] > 0 and not clear_stop(spec, ref, X2, data, plan):
        raise InvalidPlan("the stopping point is too close to call")
    converged = N < spec["max_its"]
    folder = workdir(R, "disk")
    path = os.path.join(folder, "ck.h5")

    def limits(r):
        k = 1 + frac(r["at"], max(N - 1, 1))
        return (k if r["end"] == "die" else None), (min(k, spec["max_its"]) if r["end"] == "budget" else spec["max_its"])
    stop, max_its = limits(plan["first"])
    first = in_child(lifetime, plan, path, stop, max_its, None, path, plan["first"]["store"], plan["first"]["via"])
    reached = follow(R, plan, data, ref, first, 0, "the first run")
    R.step("process lifetimes", 1)
    R.event("first", its=[r[0] for r in first["rows"]], snaps=[r[1].hash for r in first["rows"]])
    prev_end = plan["first"]["end"]
    for k, rnd in enumerate(plan["rounds"]):
        found, latest = in_child(look, plan, path)
        if os.path.exists(path):
            with h5py.File(path, "r") as h5:
                raw = sorted(int(k[11:]) for k in h5 if k.startswith("checkpoint_"))
            R.check(raw == sorted(found), "unreadable", lambda: f"the file has checkpoints {raw}, only {sorted(found)} can be loaded ({latest})")
        if not found:
            R.check(not os.path.exists(path), "unreadable", f"a file without a checkpoint that can be loaded is left ({latest})")
            R.probe("died before the first checkpoint")
            break
        labels = sorted(found)
        R.check(latest[0] in found, "latest", f"the latest checkpoint is {latest}, there are {labels}")
        label = latest[0] if rnd["latest"] or rnd["api"] != "load" else labels[frac(rnd["label"], len(labels))]
        if label >= N:
            R.violate("extra-iterations", f"there is a checkpoint {label} of a run of {N} iterations")
        if converged and label >= N - 1:
            R.probe("resume from a converged checkpoint skipped")
            break
        stop, max_its = limits(rnd)
        if rnd["end"] == "budget":
            max_its = max(max_its, label + 1)
        if rnd["end"] == "die":
            stop = 1 + frac(rnd["at"], max(N - label - 1, 1))
        target = path
        if not rnd["same_file"]:
            target = os.path.join(folder, f"ck{k}.h5")
        res = dict(api=rnd["api"], label=None if rnd["latest"] else label)
        life = in_child(lifetime, plan, path, stop, max_its, res, target, rnd["store"], rnd["via"])
        R.step("process lifetimes", 1); R.step("iterations", len(life["rows"]))
        if prev_end == "die":
            R.fault("process death")
        R.state(spec["kind"], rnd["api"], prev_end, label == latest[0], k, spec["freq"], spec["nonneg"] is not None,
                spec["orth"] is not None, spec["ridge"] is not None)
        R.event("resumed", label=label, its=[r[0] for r in life["rows"]], snaps=[r[1].hash for r in life["rows"]])
        if "loaded" in life:
            snap, current, m = life["loaded"]
            R.check(snap.same(found[label]), "state", lambda: f"loading checkpoint {label} in a new process gives another state than before")
            R.check(current == label + 1, "count", f"after loading checkpoint {label}, {current} iterations are done")
            close(R, plan, data, snap, ref["snaps"][label], f"the state loaded from checkpoint {label}")
            if label < len(ref["loss"]):
                R.check(abs(m["loss"] - ref["loss"][label]) <= 1e-7 * X2 + 1e-6 * abs(ref["loss"][label]), "loss",
                        f"after loading checkpoint {label} the loss is {m['loss']}, it was {ref['loss'][label]}")
        follow(R, plan, data, ref, life, label + 1, f"the run resumed from checkpoint {label} ({rnd['api']})",
               full=rnd["end"] == "done" or (rnd["end"] == "budget" and max_its >= N), until=None if stop is not None else min(max_its, N))
        f2, l2 = in_child(look, plan, target)
        want = expected_labels([r[0] for r in life["rows"]], spec["freq"], ended="returned" in life)
        for w in want:
            R.check(w in f2, "file", f"the run resumed from checkpoint {label} left no checkpoint {w}; there are {sorted(f2)}")
            row = [r for r in life["rows"] if r[0] == w][0]
            want_snap = life["tidied"] if "tidied" in life and w == life["rows"][-1][0] else row[1]
            R.check(f2[w].same(want_snap), "file", f"the run resumed from checkpoint {label} left a wrong checkpoint {w}")
        if "returned" in life and life["rows"]:
            R.check(l2[0] == life["rows"][-1][0], "file", f"the latest checkpoint is {l2[0]} after iteration {life['rows'][-1][0]}")
        path, prev_end = target, rnd["end"]


def clear_stop(spec, ref, X2, data, plan):
    """Is it clear at every iteration whether the convergence test is met?"""
    first = in_child(start_loss, plan)
    losses = [first] + list(ref["sse"] if "sse" in ref else ref["loss"])
    if spec["ridge"] is not None and spec["kind"] != "pf2":
        return False
    for a, b in zip(losses, losses[1:]):
        c = abs(a - b) / max(a, 1e-300)
        if 0.8 < c / spec["tol"] < 1.25 or b < 1e-7 * X2:
            return False
    return True


def start_loss(plan):
    data = Data(plan["data"])
    dec = make(plan["model"], max_its=0)
    seed(plan["np_seed"])
    with quiet():
        start(dec, data, plan["model"])
        return float(dec.loss)


def close(R, plan, data, a, b, what):
    if a.same(b):
        return
    R.probe("equal up to rounding")
    if not a.same(b, 1e-9):
        R.check(same_model(data, a, b, 1e-6), "trajectory", lambda: f"{what} differs from the uninterrupted run "
                                                                    f"(factors by {a.distance(b):.3g}, relative)")
        R.checks += 1


def follow(R, plan, data, ref, life, first, what, full=False, until=None):
    its = [r[0] for r in life["rows"]]
    R.check(its == list(range(first, first + len(its))), "numbering", f"{what} did iterations {its}, should start with {first} and have no gaps")
    N = len(ref["its"])
    R.check(first + len(its) <= N, "extra-iterations", f"{what} went on to {its[-1:]}; the uninterrupted run did {N} iterations")
    for it, snap, loss in life["rows"]:
        close(R, plan, data, snap, ref["snaps"][it], f"iteration {it} of {what}")
        R.check(abs(loss - ref["loss"][it]) <= 1e-7 * data.norm2 + 1e-6 * abs(ref["loss"][it]), "loss",
                f"iteration {it} of {what} has loss {loss}, in the uninterrupted run it is {ref['loss'][it]}")
    if until is not None:
        R.check(first + len(its) == max(until, first) and life.get("current") == max(until, first), "stopping-point",
                f"{what} stopped with {life.get('current')} iterations, should be {until}")
        if until == N:
            fin, want = life["returned"], ref["final"]
            R.check(fin.same(want, 1e-9) or collapsed(want) or same_model(data, fin, want, 1e-6), "result",
                    f"{what} returned another model than the uninterrupted run")
