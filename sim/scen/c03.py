"""C03: checkpoints appear on schedule and hold the right iteration."""
import os
import pathlib

from sim.scen.common import *

ID = "C03"
WIDE = True
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one evaluation is one history of fit, continue, refit, rewind, explicit store and interrupted operations on one "
        "decomposer and one checkpoint file, the file read back in the middle of fits and after every operation")
MEASURE = "distinct (operation, previous operation, frequency, model kind, how the fit ended, iterations run modulo frequency)"
STUB = STUB_DISK
ASSUMES = ["checkpoints left in the file by an earlier fit or beyond a rewind may stay, as long as they are unaltered"]


def gen(rng):
    data, model = gen_world(rng)
    model["freq"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, None, -1, -2])
    model["max_its"] = rng.randint(1, 9)
    model["tol"] = rng.choice([-1, -1, -1, 1e-3, 3e-2])
    ops = []
    for i in range(rng.randint(2, 6)):
        op = rng.choice(["continue", "continue", "refit", "load", "load", "other", "store", "interrupt", "interrupt", "noop"]) if i else \
            rng.choice(["fit", "fit", "interrupt-fit"])
        ops.append(dict(op=op, n=rng.randint(1, 7) if rng.random() < 0.97 else rng.randint(30, 110), at=rng.random(), look=rng.random(), same=rng.random() < 0.5))
    return dict(data=data, model=model, ops=ops, path=rng.choice(["str", "path", "relative", "str", "none"]), loggers=pick_loggers(rng, 1))


class Book:
    """The reference model: which checkpoints the file must hold, and what others it may hold."""

    def __init__(self):
        self.must, self.may, self.latest = {}, {}, None

    def put(self, label, snap):
        label = int(label)
        self.must[label] = snap
        self.may.setdefault(label, []).append(snap)
        self.latest = (label, snap)


def other_run(plan, R, data):
    """A checkpoint file of another run of the same world."""
    path = os.path.join(workdir(R, "other"), "other.h5")
    obs = SimLogger()
    seed(plan["np_seed"] + 1)
    with quiet():
        start(make({**plan["model"], "freq": 1, "tol": -1}, path=path, loggers=[obs]), data, plan["model"], max_its=9)
    refuse_degenerate(plan["model"], [r["snap"] for r in obs.rows])
    return path, [r["snap"] for r in obs.rows]


def run(plan, R):
    spec = plan["model"]
    validate(plan["data"], spec)
    if not plan["ops"] or plan["ops"][0]["op"] not in ("fit", "interrupt-fit"):
        raise InvalidPlan("first operation")
    folder = workdir(R, "disk")
    os.chdir(folder)
    name = os.path.join(folder, "ck.h5")
    path = {"str": name, "path": pathlib.Path(name), "relative": "ck.h5", "none": None}[plan["path"]]
    data = Data(plan["data"])
    freq = spec["freq"]
    obs = SimLogger()
    dec = make(spec, path=path, loggers=make_loggers(plan["loggers"]) + [obs])
    book = Book()
    others = other_run(plan, R, data) if any(op["op"] == "other" for op in plan["ops"]) else None
    disk.start(folder)
    seed(plan["np_seed"])
    foreign = False                       # the model was loaded from another file
    interrupted = unborn = False          # in the middle of an iteration; without a usable model
    prev = now = None

    def due(it):
        return path is not None and freq is not None and freq > 0 and (it + 1) % freq == 0

    def enter(rows):
        for r in rows:
            if due(r["it"]) and "entered" not in r:
                r["entered"] = True
                book.put(r["it"], r["snap"])

    def compare(when):
        if path is None:
            R.check(disk.clock == 0 and os.listdir(folder) == [], "unasked-write",
                    f"{when}: something was written although there is no checkpoint file")
            return
        upto = max(list(book.may) + [int(r["it"]) for r in obs.rows] + [0]) + 2
        found, latest = {}, (None, "no file")
        if os.path.exists(name):
            found, latest = load_labels(data, spec, name, upto)
        R.event("file", when=when, labels=sorted(found), latest=latest[0])
        for l in book.must:
            R.check(l in found, "missing-checkpoint", lambda: f"{when}: checkpoint {l} is missing; there are {sorted(found)}")
        for l, s in found.items():
            if l in book.must:
                R.check(s.same(book.must[l]), "wrong-checkpoint", lambda: f"{when}: " + describe(l, s, book.must[l]))
            else:
                R.check(any(s.same(h) for h in book.may.get(l, [])), "wrong-checkpoint",
                        lambda: f"{when}: checkpoint {l} was not asked for, or is not what the iteration produced")
        if book.latest is not None:
            l, s = book.latest
            R.check(latest[0] == l, "wrong-latest", lambda: f"{when}: the latest checkpoint is {latest[0]}, should be {l}")
            R.check(latest[1].same(s), "wrong-latest", lambda: f"{when}: the latest checkpoint: " + describe(l, latest[1], s))

    for i, op in enumerate(plan["ops"]):
        kind, n0 = op["op"], len(obs.rows)
        if op["n"] < 1 or (i and kind in ("fit", "interrupt-fit")):
            raise InvalidPlan("op")
        if (unborn and kind != "refit") or (interrupted and kind in ("noop", "store")) or (path is None and kind in ("store", "load")):
            continue
        if kind == "other" and data.spec != plan["data"]:
            continue
        before = int(getattr(dec, "current_iteration", 0))
        target = None
        if kind == "load":
            labels = sorted(load_labels(data, spec, name, max(book.may) + 2)[0]) if book.may else []
            if not labels:
                continue
            target = book.latest[0] if op["same"] else labels[frac(op["at"], len(labels))]
        elif kind == "other":
            target = frac(op["at"], len(others[1]))
        elif kind == "store" and before == 0:
            continue

        def on_log(d, row):
            rows = obs.rows[n0:]
            enter(rows[:-1])             # what the iterations before this one had to store is there by now
            if len(rows) - 1 == frac(op["look"], 6):
                with kernels.off():
                    compare(f"operation {i} ({kind}), when iteration {int(row['it'])} was logged")
        obs.on_log = on_log
        kernels.reset()
        err = None
        if kind in ("interrupt", "interrupt-fit"):
            kernels.plan = {1 + frac(op["at"], 60): "KeyboardInterrupt"}
        with quiet(), kernels.on():
            try:
                if kind in ("fit", "refit", "interrupt-fit"):
                    if kind == "refit" and not op["same"]:
                        data = Data({**plan["data"], "seed": plan["data"]["seed"] + i})
                    book.must = {}
                    start(dec, data, spec, max_its=op["n"] if i else spec["max_its"])
                elif kind in ("continue", "interrupt"):
                    dec.continue_fit(max_its=before + op["n"])
                elif kind == "noop":
                    dec.continue_fit(max_its=frac(op["at"], before + 1))
                elif kind == "store":
                    dec.store_checkpoint()
                elif kind == "load":
                    dec.load_checkpoint(path, None if op["same"] else target)
                elif kind == "other":
                    dec.load_checkpoint(others[0], target)
            except KeyboardInterrupt:
                if not kernels.fired:
                    raise
                err = "KeyboardInterrupt"
        rows = obs.rows[n0:]
        refuse_degenerate(spec, [r["snap"] for r in rows])
        R.step("iterations", len(rows))
        last_model, now = now, snapshot(dec) if getattr(dec, "decomposition", None) is not None else None
        R.event("op", op=kind, its=[int(r["it"]) for r in rows], err=err, target=target)
        if err is not None:
            R.fault("Ctrl-C in a numerical kernel")
        R.state(kind, prev, freq, spec["kind"], err, len(rows) % (freq or 7), len(rows) == 0, path is None)
        prev = kind
        returned = False
        if kind == "store":
            book.put(dec.current_iteration - 1, now)
            foreign = False
        elif kind == "other":
            R.check(now.same(others[1][target]), "load-model", f"loading checkpoint {target} of another file gives another decomposition")
            book.must = {l: s for l, s in book.must.items() if l <= target}
            interrupted, foreign = False, True
        elif kind == "load":
            foreign = False
            R.check(int(dec.current_iteration) == target + 1, "load-count",
                    f"after loading checkpoint {target} the decomposer says {dec.current_iteration} iterations are done")
            R.check(any(now.same(h) for h in book.may[target]), "load-model", f"loading checkpoint {target} gives another decomposition")
            book.must = {l: s for l, s in book.must.items() if l <= target}
            interrupted = False
        else:
            enter(rows)
            if err is not None:
                if spec["kind"] == "cmtf" and path is not None and os.path.exists(name) and (rows or before):
                    # perhaps interrupted after the last checkpoint, when the result was normalised
                    ended = (int(rows[-1]["it"]), rows[-1]["snap"]) if rows else (before - 1, last_model)
                    latest = load_labels(data, spec, name, 0)[1]
                    if latest[0] == ended[0] and latest[1].same(ended[1]):
                        book.put(*ended)
                        R.probe("interrupted after the last checkpoint")
                known = rows[-1]["snap"] if rows else last_model
                interrupted = not (known is not None and now is not None and now.same(known)) or (interrupted and not rows)
                unborn = not rows and kind in ("refit", "interrupt-fit")
            else:
                unborn = False
                foreign = foreign and not rows
                interrupted = interrupted and not rows and kind not in ("fit", "refit", "interrupt-fit")
                returned = path is not None and int(dec.current_iteration) > 0 and not interrupted
                if returned and rows and not due(rows[-1]["it"]):
                    book.put(rows[-1]["it"], rows[-1]["snap"])
                elif returned and not rows and (book.latest is None or book.latest[0] != before - 1 or foreign):
                    foreign = False
                    book.put(before - 1, last_model)      # nothing left to do after a rewind
        compare(f"after operation {i} ({kind}{', interrupted' if err else ''})")
        if returned:
            latest = load_labels(data, spec, name, 0)[1]
            same = latest[0] is not None and (latest[1].same(now) or (
                spec["kind"] == "cmtf" and (collapsed(latest[1]) or same_model(data, latest[1], now, 1e-9))))
            R.check(same, "latest-not-returned", f"after operation {i} ({kind}) the latest checkpoint is not the model returned")
