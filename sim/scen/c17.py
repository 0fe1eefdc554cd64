"""C17: watching a fit does not change it."""
from sim.core import hash_arrays
from sim.scen.history import *

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("one evaluation is one sequence of fits, continuations, refits and interruptions, executed twice from the same random state in "
        "processes of their own: bare, and with loggers, printing, measures read during and between the calls, and checkpoints on a disk with "
        "short transfers and interrupted system calls; models, iteration counts, failures and random state are compared bit for bit")
MEASURE = "distinct (model kind, operation, failure, loggers, frequency, print, reads, disk faults, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["numpy and LAPACK give the same bits for the same input in every process", "a watcher only reads"]
READS = ("SSE", "MSE", "RMSE", "loss", "explained_variance", "reconstructed_X")


def gen(rng):
    data, model = gen_world(rng)
    model["tol"] = rng.choice([-1, -1, 1e-2, 1e-3])
    model["freq"] = rng.choice([1, 1, 2, 3, None])
    model["print"] = rng.choice([-1, 1, 1, 2, 3])
    if "rel_tol" in model:
        model["rel_tol"] = rng.choice([-1, -1, 0.1, 1e-2])
    ops = []
    for i in range(rng.randint(1, 5)):
        ops.append(dict(op=rng.choice(["fit", "staged", "interrupt-fit"]) if not i else rng.choice(["continue"] * 4 + ["refit", "interrupt", "interrupt"]),
                        n=rng.randint(0, 7), at=rng.random(), span=rng.choice([8, 30, 100]), exc=rng.choice(EXC), data=rng.choice([0, 0, 1, 2]),
                        reads=[rng.choice(READS) for _ in range(rng.randint(0, 3))],
                        disk=rng.choice([None, None, "short", "EINTR"]), dat=rng.random(), store=rng.random() < 0.15))
    return dict(data=data, model=model, datas=gen_datas(rng, data, model), ops=ops, loggers=pick_loggers(rng, 5), file=rng.random() < 0.7,
                during=[rng.choice(READS) for _ in range(rng.randint(0, 4))])


class Reader:
    """A user's logger that looks at this and that."""

    def __init__(self, what):
        self.what, self.seen = what, 0

    def log(self, dec):
        for w in self.what:
            getattr(dec, w)
        self.seen += 1

    def write_to_hdf5_group(self, h5):
        h5.attrs["seen"] = self.seen


def play(plan, watched, folder):
    spec, datas = dict(plan["model"]), [Data(d) for d in plan["datas"]]
    path = os.path.join(folder, "ck.h5") if watched and plan["file"] else None
    if not watched:
        spec.update(freq=None, print=-1)
    logs = make_loggers(plan["loggers"]) + [Reader(plan["during"])] if watched else []
    dec = make(spec, path=path, loggers=logs)
    disk.start(folder)
    seed(plan["np_seed"])
    out, faults, unborn = [], {}, True
    for op in plan["ops"]:
        kind, n = op["op"], op["n"]
        fresh = kind in ("fit", "refit", "interrupt-fit", "staged")
        if unborn and not fresh:
            continue
        kernels.reset()
        if kind.startswith("interrupt"):
            kernels.plan = {1 + frac(op["at"], op["span"]): op["exc"]}
        if path and op["disk"]:
            if op["disk"] == "short":
                disk.rule("short", "W", disk.clock + 1 + frac(op["dat"], 8), 1)
            else:
                disk.rule("error", "W", disk.clock + 1 + frac(op["dat"], 8), 1, err="EINTR")
        c0 = 0 if fresh else int(dec.current_iteration)
        err = None
        with quiet(), kernels.on():
            try:
                if kind == "staged":
                    unborn = True
                    start(dec, datas[op["data"]], spec, max_its=0)
                    unborn = False
                    dec.continue_fit(max_its=n)
                elif fresh:
                    unborn = True
                    start(dec, datas[op["data"]], spec, max_its=n, method="fit_transform")
                    unborn = False
                else:
                    dec.continue_fit(max_its=c0 + n)
            except BaseException as e:
                if not kernels.fired or type(e).__name__ not in EXPECTED:
                    raise
                err = type(e).__name__
                if getattr(dec, "current_iteration", 0):
                    unborn = False
        for k, v in disk.clear().items():
            faults[k] = faults.get(k, 0) + v
        fired = list(kernels.fired)
        kernels.reset()
        with quiet():
            if watched and not unborn:
                for r in op["reads"]:
                    getattr(dec, r)
                if op["store"] and path and err is None:
                    dec.store_checkpoint()
            st = np.random.get_state()
            out.append(dict(kind=kind, err=err, fired=fired, it=int(getattr(dec, "current_iteration", 0)), snap=None if unborn else snapshot(dec),
                            random=(hash_arrays([st[1]]), int(st[2]), int(st[3]), float(st[4]))))
    disk.stop()
    if unborn:
        m = None
    else:
        with quiet():
            m = measures(dec)
    return out, faults, m


def run(plan, R):
    spec = plan["model"]
    for d in plan["datas"]:
        validate(d, spec)
    if not plan["ops"] or plan["ops"][0]["op"] not in ("fit", "staged", "interrupt-fit") or min(o["n"] for o in plan["ops"]) < 0:
        raise InvalidPlan("ops")
    bare, _, m0 = in_child(play, plan, False, workdir(R, "bare"))
    seen, faults, m1 = in_child(play, plan, True, workdir(R, "disk"))
    for k, v in faults.items():
        R.fault(k, v)
    R.check(len(bare) == len(seen), "operations", "the operations diverge")
    for i, (a, b) in enumerate(zip(bare, seen)):
        for _, name, e in a["fired"]:
            R.fault(f"{e} in {name}")
        R.step("iterations", b["it"])
        R.event("op", op=a["kind"], err=a["err"], it=a["it"], snap=a["snap"] and a["snap"].hash)
        o = plan["ops"][min(i, len(plan["ops"]) - 1)]
        R.state(spec["kind"], a["kind"], a["err"], *sorted(plan["loggers"]), spec["freq"], spec["print"], *sorted(plan["during"]), *sorted(o["reads"]),
                o["disk"], spec["init"], *(spec[k] is not None for k in ("nonneg", "orth", "ridge")))
        what = f"{a['kind']} (operation {i + 1})"
        R.check((a["err"], a["fired"]) == (b["err"], b["fired"]), "failure", lambda: f"{what}: watched it ends with {b['err']}, bare with {a['err']}")
        R.check(a["it"] == b["it"], "stopping-point", lambda: f"{what}: watched it stops after {b['it']} iterations, bare after {a['it']}")
        R.check((a["snap"] is None) == (b["snap"] is None) and (a["snap"] is None or a["snap"].same(b["snap"])), "model",
                lambda: f"{what}: watched it gives another model than bare (by {a['snap'].distance(b['snap']):.3g}, relative)")
        R.check(a["random"] == b["random"], "random", f"{what}: watching uses random numbers")
    if m0 is not None:
        tol = 1e-9 * max(Data(d).norm2 for d in plan["datas"])
        for k in ("SSE", "loss"):
            R.check(m0[k] != m0[k] or abs(m0[k] - m1[k]) <= tol + 1e-9 * abs(m0[k]), "measures", lambda: f"watched the model has {k} {m1[k]}, bare {m0[k]}")
