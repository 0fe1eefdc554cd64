"""Histories of operations on one decomposer, with interruptions, for the per-iteration invariants."""
import copy

from sim.scen.common import *
from sim.world import n_modes

EXC = ("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "LinAlgError")
EXPECTED = {"KeyboardInterrupt", "MemoryError", "LinAlgError", "OSError", "BlockingIOError", "InterruptedError"}


FRESH = ("fit", "refit", "interrupt-fit", "staged", "init")
CALLS = FRESH + ("continue", "interrupt", "stop", "noop")


class UserStop(Exception):
    """A user's logger stops the fit."""


def gen_datas(rng, data, model):
    """Data to fit: the world's own, same sizes, other sizes (and another order, if the settings allow it)."""
    other = {**copy.deepcopy(data), "seed": rng.randrange(2 ** 31), "scale": data["scale"] * rng.choice([1, 1, 10])}
    if rng.random() < 0.35:
        other = {**copy.deepcopy(data), "tweak": rng.choice(["entry", "last", "reverse", "second", "second"])}
    big = {**copy.deepcopy(data), "seed": rng.randrange(2 ** 31)}
    if data["kind"] == "pf2":
        big["I"] += rng.randint(0, 2)
        big["K"] += rng.randint(0, 1)
        big["J"] = [j + rng.randint(0, 1) for j in (big["J"] + [big["J"][0]])[:big["K"]]] if isinstance(big["J"], list) else big["J"] + 1
    else:
        big["shape"] = [s + rng.randint(0, 2) for s in big["shape"]]
        big["shape"][rng.randrange(len(big["shape"]))] += 1
        if data["kind"] == "cp" and all(model[k] is None for k in ("nonneg", "orth", "ridge")) and rng.random() < 0.5:
            big["shape"] = big["shape"][1:] if len(big["shape"]) > 3 else big["shape"] + [model["rank"] + 1]
        for c in big.get("coupled", []):
            c["cols"] += rng.randint(0, 1)
    return [data, other, big]


def gen_history(rng, kinds=("cp", "cp", "pf2", "cmtf"), constraints=0.5, ops=None, freqs=(1, 2, 3, None), tols=(-1,), most=6,
                its=(1, 6), first=("fit", "fit", "fit", "staged", "interrupt-fit"), refill=0.15, **kw):
    data, model = gen_world(rng, kinds, constraints, **kw)
    if rng.random() < 0.1:              # every fit starts from the checkpoint of an earlier run
        model["init"], model["file_its"] = rng.choice(["path", "from_checkpoint"]), rng.randint(1, 4)
    model["freq"] = rng.choice(freqs)
    model["tol"] = rng.choice(tols)
    model["print"] = rng.choice([-1, -1, 1, 3])
    ops = ops or ["continue"] * 4 + ["refit"] * 2 + ["interrupt"] * 4 + ["interrupt-fit", "load", "load", "process", "normalize",
                                                                        "edit", "retarget", "noop", "stop", "staged"]
    ops, first = list(ops) + ["init"], list(first) * 2 + ["init"]
    out = []
    for i in range(rng.randint(2, most)):
        op = dict(op=rng.choice(ops) if i else rng.choice(first), n=rng.randint(*its), at=rng.random(),
                  span=rng.choice([8, 30, 30, 100]), exc=rng.choice(EXC), data=rng.choice([0, 0, 1] if model["init"] == "path" else [0, 0, 1, 2]), api=rng.choice(["fit", "fit_transform"]))
        broken = out and out[-1]["op"] in ("interrupt", "interrupt-fit", "stop")
        if broken and rng.random() < 0.25:  # use what an interrupted fit left
            op["op"] = rng.choice([o for o in ops if o in ("edit", "retarget", "normalize", "load")] or [op["op"]])
        elif i and out[-1]["op"] == "init" and rng.random() < 0.5:
            op.update(op=rng.choice([o for o in ops if o in ("interrupt", "stop")] or [op["op"]]), span=8, n=1)
        if rng.random() < 0.15:
            op["disk"] = dict(at=rng.random(), err=rng.choice(["ENOSPC", "EIO"]), count=rng.choice([1, -1]))
        if i and rng.random() < refill:
            op["refill"] = rng.randrange(2 ** 31)
        out.append(op)
    return dict(data=data, model=model, datas=gen_datas(rng, data, model), ops=out, file=rng.random() < 0.7,
                loggers=pick_loggers(rng, 2))


def earlier_run(data_spec, spec, path, np_seed):
    seed(np_seed)
    spec = {**spec, "init": "random", "tol": -1, "max_its": spec["file_its"], "freq": None, "print": -1, "start_path": None, "omit": ()}
    if "rel_tol" in spec:
        spec["rel_tol"] = -1
    with quiet():
        start(make(spec, path=path), Data(data_spec), spec)


class History:
    """Executes the operations; subclasses judge."""
    read = False            # read the measures in the logger
    refuse = True           # leave worlds where a component died
    tolerate = ()           # legal exceptions of operations without a fault
    starts = False          # find the starting point of every fit

    def __init__(self, plan, R, **make_over):
        self.plan, self.R, self.spec = plan, R, plan["model"]
        for d in plan["datas"]:
            validate(d, self.spec)
        if not plan["ops"] or plan["ops"][0]["op"] not in FRESH:
            raise InvalidPlan("first operation")
        self.folder = workdir(R, "disk")
        self.path = os.path.join(self.folder, "ck.h5") if plan["file"] else None
        self.datas = [Data(d) for d in plan["datas"]]
        self.data = self.datas[0]
        self.offset = 0              # completed iterations a fit starts with
        if self.spec["init"] in ("path", "from_checkpoint"):
            self.start_files()
        self.over = make_over
        self.obs = SimLogger(read=self.read, budget=5000 if plan["model"].get("omit") else 400)
        self.obs.on_log = self._on_log
        self.dec = self.new()
        self.unborn = True           # no usable model
        self.midway = False          # interrupted in the middle of an iteration
        self.last = None             # the model after the last completed iteration or operation, if known
        self.done = 0                # completed iterations
        self.stop_at = None
        self.limit = self.spec["max_its"]
        self.shape_of = {}           # label in the file -> which data it was for
        self.now = None
        self.boundary = True         # does the next iteration start a call?

    def new(self):
        return make(self.spec, path=self.path, loggers=make_loggers(self.plan["loggers"]) + [self.obs], **self.over)

    def start_files(self):
        """An earlier run of another process left a checkpoint for every size of the data."""
        folder, self.offset = workdir(self.R, "start"), self.spec["file_its"]
        if self.offset < 1:
            raise InvalidPlan("file_its")
        made = {}
        for i, d in enumerate(self.datas):
            key = self.shape(i)
            if key not in made and (i == 0 or self.spec["init"] == "from_checkpoint"):
                made[key] = os.path.join(folder, f"start{key}.h5")
                in_child(earlier_run, self.plan["datas"][i], self.spec, made[key], self.plan["np_seed"] + 13)
            d.start_file = made.get(key)
        if self.spec["init"] == "path":
            self.spec = {**self.spec, "start_path": made[0]}

    # to override; run with kernel faults off
    def on_iter(self, dec, row, prev):
        pass

    def before(self, op):
        pass

    def after(self, op, out):
        pass

    def _on_log(self, dec, row):
        with kernels.off():
            if self.refuse:
                refuse_degenerate(self.spec, [row["snap"]])
            if self.spec["kind"] == "cmtf" and self.spec["ridge"] is not None and dwindled(row["snap"]):
                raise InvalidPlan("a penalised component dwindles without end")
            row["boundary"], self.boundary = self.boundary, False
            row["first"], row["prev"] = self.done == self.offset and row["boundary"], self.last
            self.on_iter(dec, row, self.last)
            self.last = row["snap"]
        if self.stop_at is not None and len(self.obs.rows) >= self.stop_at:
            self.stop_at = None
            raise UserStop("stopped by a user's logger")

    def shape(self, d):
        return 2 if d == 2 else 0

    def labels(self, d):
        if self.path is None or not os.path.exists(self.path):
            return []
        try:
            with h5py.File(self.path, "r") as h5:
                have = sorted(int(k[11:]) for k in h5 if k.startswith("checkpoint_"))
        except OSError:
            return []
        return [l for l in have if self.shape_of.get(l) == self.shape(d)]

    def run(self):
        R = self.R
        disk.start(self.folder)
        seed(self.plan["np_seed"])
        prev_kind = None
        d = 0                                           # index of the current data
        for i, op in enumerate(self.plan["ops"]):
            kind, dec, n0 = op["op"], self.dec, len(self.obs.rows)
            if op["n"] < 1 or op["span"] < 1 or (i == 0 and op["data"] > 2):
                raise InvalidPlan("op")
            if self.unborn and kind not in FRESH:
                continue
            if self.spec["init"] == "path" and op["data"] == 2:
                raise InvalidPlan("the file is for other sizes")
            if kind == "load" or kind == "process":
                labels = self.labels(d)
                if not labels:
                    continue
                label = labels[frac(op["at"], len(labels))]
            if kind in ("normalize",) and self.spec["kind"] == "pf2":
                continue
            if kind == "retarget" and self.shape(op["data"]) != self.shape(d):
                continue
            if self.midway and kind in ("noop",):
                continue
            if kind in FRESH + ("retarget",):
                d = op["data"]
            data = self.datas[d]
            if op.get("refill") is not None and kind in FRESH + ("retarget",) and data.arrays()[0].flags.writeable:
                data.refill(op["refill"])
            self.before(op)
            kernels.reset()
            if kind.startswith("interrupt"):
                kernels.plan = {1 + frac(op["at"], op["span"]): op["exc"]}
            if kind == "stop":
                self.stop_at = len(self.obs.rows) + 1 + frac(op["at"], op["n"])
            if op.get("disk") and self.path:
                disk.rule("error", "WTSRO", disk.clock + 1 + frac(op["disk"]["at"], 12), op["disk"]["count"], err=op["disk"]["err"])
            err, returned = None, None
            self.boundary = True
            fresh = kind in FRESH
            if fresh:
                self.data, self.done, self.last, self.midway = data, self.offset, None, False
            c0 = self.done
            own = bool(op.get("own")) and self.limit is not None and kind != "init"        # use the limit the decomposer has
            budget = self.limit if own else 0 if kind == "init" else frac(op["at"], c0 + 1) if kind == "noop" else c0 + op["n"]      # c0 of a fit: the iterations it starts with
            kw = {} if own else {"max_its": budget}
            if kind in CALLS:
                self.limit = budget
            with quiet(), kernels.on():
                try:
                    if kind in ("fit", "refit", "interrupt-fit", "init"):
                        self.unborn = True
                        if self.starts:
                            self.last = self.starting_point(data)
                        returned = start(dec, data, self.spec, method=op["api"], **kw)
                    elif kind == "staged":
                        self.unborn = True
                        start(dec, data, self.spec, max_its=0)
                        self.unborn = False
                        self.last = snapshot(dec)
                        dec.continue_fit(max_its=budget)
                    elif kind in ("continue", "interrupt", "stop", "noop"):
                        dec.continue_fit(**kw)
                    elif kind == "load":
                        dec.load_checkpoint(self.path, label)
                    elif kind == "process":
                        self.dec = dec = self.new()
                        self.limit = self.spec["max_its"]
                        attach(dec, data)
                        dec.load_checkpoint(self.path, label)
                    elif kind == "normalize":
                        self.normalize(dec)
                    elif kind == "edit":
                        self.edit(dec, op)
                    elif kind == "retarget":
                        attach(dec, data)
                        self.data = data
                except UserStop:
                    err = "UserStop"
                except BaseException as e:
                    if type(e).__name__ not in self.tolerate and (not (kernels.fired or disk.hits()) or type(e).__name__ not in EXPECTED):
                        raise
                    err = type(e).__name__
            self.stop_at = None
            hits = disk.clear() if self.path else {}
            fired = list(kernels.fired)
            kernels.reset()
            for k, n in hits.items():
                R.fault(k, n)
            for _, name, exc in fired:
                R.fault(f"{exc} in {name}")
            if err == "UserStop":
                R.fault("exception from a logger")
            rows = self.obs.rows[n0:]
            R.step("iterations", len(rows)); R.step("operations", 1)
            if rows or (err is None and fresh):
                self.unborn = False
            if self.unborn:
                self.limit = None
            if kind in ("load", "process"):
                self.midway, self.done = False, label + 1
                self.now = self.last = snapshot(self.dec)
            elif not self.unborn:
                self.done = c0 + len(rows) - (err == "UserStop")
                self.now = snapshot(self.dec)
                mid = err is not None and not hits and err != "UserStop"
                self.midway = mid or (self.midway and not rows)
                self.last = self.now
            its = [int(r["it"]) for r in rows]
            for l in expected_labels(its, self.spec["freq"], ended=err is None):
                self.shape_of[l] = self.shape(d)
            if err is not None and its:
                self.shape_of[its[-1]] = None           # perhaps written, perhaps not
            if err is None and self.path and kind in CALLS and self.done:
                self.shape_of[self.done - 1] = self.shape(d)
            R.event("op", op=kind, its=[int(r["it"]) for r in rows], err=err, snap=None if self.unborn else self.now.hash)
            R.state(self.spec["kind"], kind, prev_kind, err, fired[0][1] if fired else None, bool(rows), self.midway, d,
                    *(self.spec[k] is not None for k in ("nonneg", "orth", "ridge")), self.spec["init"])
            out = dict(err=err, rows=rows, hits=hits, fired=fired, fresh=fresh, c0=c0, budget=budget, returned=returned, kind=kind)
            with quiet():
                self.after(op, out)
            prev_kind = kind

    def starting_point(self, data):
        """The model a fit from the present random state begins with."""
        state = np.random.get_state()
        with kernels.off():
            dec = make(self.spec)
            start(dec, data, self.spec, max_its=0)
        np.random.set_state(state)
        return snapshot(dec)

    def normalize(self, dec):
        if self.spec["kind"] == "cmtf":
            dec._normalize_components()
        else:
            dec.decomposition.normalize_components()

    def edit(self, dec, op):
        """The user changes the model in place, or replaces it."""
        t = dec.decomposition
        fs = [t.A, t.blueprint_B, t.C] if self.spec["kind"] == "pf2" else t.factor_matrices
        free = [m for m in range(len(fs)) if not (self.spec["orth"] and self.spec["orth"][m])]
        if op["at"] < 0.3:
            fs[free[0]][:, 0] *= 1.5
        elif op["at"] < 0.6 and len(free) > 1 and self.spec["ridge"] is None:
            fs[free[0]][:, -1] *= 10.0 ** op["n"]       # another scaling of the same model
            fs[free[-1]][:, -1] *= 10.0 ** -op["n"]
        else:
            dec.decomposition = copy.deepcopy(t)
