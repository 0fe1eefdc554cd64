"""C13: experiment metric files hold every logged value exactly once."""
from sim.scen.common import *
from sim.seams import ChildDied
from tenkit import log as L

ID = "C13"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 100000}
RULE = ("one evaluation is one history of process lifetimes that log to one file: loggers of several experiments, explicit saves, metrics that "
        "raise, experiments run, failed and continued, with disk errors, short transfers, EINTR and SIGINT at planned disk operations of a save "
        "that is then repeated; the bytes on disk after every save are read by a process of their own and compared with the logged values")
MEASURE = "distinct (operation, fault, outcome, store frequency, number of targets, number of experiments, lifetime)"
STUB = STUB_DISK
ASSUMES = ["values are compared in single precision, which is how the file stores them", "a process that is killed while it saves is not promised anything"]
REALS = [1.5, -2.0, 0.1, 1e-3, 123456.789, -0.0, float("nan"), float("inf"), 1e300, 1e-60, 16777217.0]


class Boom(Exception):
    pass


def gen(rng):
    exs = [dict(targets=rng.randint(1, 4), freq=rng.choice([1, 1, 2, 3, 5, 7]), seed=rng.randrange(2 ** 31)) for _ in range(rng.choice([1, 1, 2, 3]))]
    lives = []
    for k in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 6)):
            op = dict(op=rng.choice(["log"] * 6 + ["save"] * 2 + ["boom", "run", "run"]), ex=rng.randrange(len(exs)), n=rng.randint(1, 8), at=rng.random())
            if op["op"] in ("log", "save", "run") and rng.random() < 0.4:
                op["fault"] = dict(kind=rng.choice(["read", "read", "sigint", "sigint", "short", "EINTR", "open", "write"]), at=rng.random(),
                                   err=rng.choice(["EIO", "ENOSPC"]), span=rng.choice([6, 12]))
            ops.append(op)
        lives.append(dict(ops=ops, tidy=rng.random() < 0.6, lazy=rng.random() < 0.3,
                          early=[e for e in range(len(exs)) if rng.random() < 0.25], metadata=rng.random() < 0.3))
    return dict(exs=exs, lives=lives)


def value(ex, t, j):
    """What target j is at step t of an experiment."""
    if (t * 7 + j * 3 + ex["seed"]) % 11 == 0:
        return REALS[(t + j + ex["seed"]) % len(REALS)]
    return float(t) + 0.25 * j + (ex["seed"] % 1000) / 64


def targets(ex, boom):
    def make(j):
        def f(parameters, scale, shift):
            assert (scale, shift) == (2, "x")
            if boom and boom[0] == j:
                boom.clear()
                raise Boom(j)
            return value(ex, parameters, j)
        return f
    return {f"metric{j}": make(j) for j in range(ex["targets"])}


def lifetime(plan, k, folder, steps, existing):
    """One process.  steps: {experiment: steps tried so far}; existing: experiments in the file."""
    path = os.path.join(folder, "log.h5")
    life, exs = plan["lives"][k], plan["exs"]
    disk.start(folder)
    booms = [[] for _ in exs]
    loggers, out = {}, []
    steps = list(steps)

    def logger(e):
        if e not in loggers:
            loggers[e] = L.HDF5Logger(path, f"ex{e}", exs[e]["freq"], (2, "x"), continue_old=e in existing, **targets(exs[e], booms[e]))
        return loggers[e]

    def shot():
        with open(path, "rb") as h:
            return h.read()
    for e in life["early"]:             # described before anything is logged
        L.Experiment(path, f"ex{e}", attributes={"note": f"experiment {e}", "number": e},
                     metadata={f"made{k}_{e}": [k, e]} if life["metadata"] else None)
    if not life["lazy"]:
        for e in range(len(exs)):
            logger(e)
    for i, op in enumerate(life["ops"]):
        e, kind = op["ex"], op["op"]
        lg = logger(e)
        rec = dict(op=kind, ex=e, logged=[], boom=None, err=None, again=None, hits={}, shots=[])
        f = op.get("fault")
        try:
            if kind in ("log", "boom"):
                n = op["n"]
                bad = frac(op["at"], n) if kind == "boom" else None
                for s in range(n):
                    if f and s == frac(op["at"], n):
                        arm(f)
                    if s == bad:
                        booms[e].append(frac(op["at"] * n - s, exs[e]["targets"]))
                    t = steps[e]
                    steps[e] += 1
                    try:
                        lg.log(t)
                    except Boom:
                        rec["boom"] = t
                        continue
                    except BaseException as x:
                        if not disk.hits():
                            raise
                        rec["logged"].append(t)
                        rec["err"] = type(x).__name__
                        merge(rec["hits"], disk.clear())
                        lg.save_logs()
                        rec["again"] = True
                        rec["shots"].append((len(rec["logged"]), "explicit", shot()))
                        continue
                    rec["logged"].append(t)
                    merge(rec["hits"], disk.clear()) if s == n - 1 else None
                    if s == n - 1 or s == bad:
                        rec["shots"].append((len(rec["logged"]), "interval", shot()))
            elif kind == "save":
                if f:
                    arm(f)
                try:
                    lg.save_logs()
                except BaseException as x:
                    if not disk.hits():
                        raise
                    rec["err"] = type(x).__name__
                    merge(rec["hits"], disk.clear())
                    lg.save_logs()
                    rec["again"] = True
                merge(rec["hits"], disk.clear())
                rec["shots"].append((0, "explicit", shot()))
            else:
                rec["again"] = ("run", e) in existing
                rec.update(run_experiment(plan, path, e, lg, op, steps, ("run", e) in existing))
                if rec["err"] is None:
                    existing = existing | {("run", e)}
                rec["shots"].append((len(rec["logged"]), "interval", shot()))
        finally:
            merge(rec["hits"], disk.clear())
        rec["opened"] = sorted(loggers)
        out.append(rec)
    tail = []
    if life["tidy"]:
        for e, lg in loggers.items():
            lg.save_logs()
            tail.append(e)
    return dict(recs=out, tidied=tail, opened=sorted(loggers), steps=steps, runs=[x for x in existing if isinstance(x, tuple)],
                final=shot() if os.path.exists(path) else None)


def run_experiment(plan, path, e, lg, op, steps, continuing):
    """Run (or continue) experiment e through the Experiment interface."""
    rec = dict(logged=[], err=None, hits={})
    exp = L.Experiment(path, f"ex{e}", attributes={"note": f"experiment {e}", "number": e})
    fails = op["at"] > 0.8 and not continuing

    def function(X, rank, rate, init, h5_group, logger, load_old):
        assert load_old == continuing and init == "random"
        for i in range(op["n"]):
            t = steps[e]
            steps[e] += 1
            rec["logged"].append(t)
            if op.get("fault") and i == frac(op["at"], op["n"]):
                arm(op["fault"])
            try:
                logger.log(t)
            except BaseException:
                if not disk.hits():
                    raise
                merge(rec["hits"], disk.clear())
                logger.save_logs()
        merge(rec["hits"], disk.clear())
        if fails:
            raise Boom
        return {"factors": np.arange(6.0).reshape(2, 3) * rank + e, "loss": np.array([rate * X])}

    def final(X, params, outputs):
        return {"fit": np.array([outputs["loss"][0] + X + params["rank"]])}
    try:
        exp.run_experiment(op["n"] * 0.5, function, dict(rank=op["n"], rate=op["at"], init="random"), final, logger=lg, continue_old=continuing)
        rec["params"] = dict(rank=op["n"], rate=op["at"])
    except Boom:
        rec["err"] = "Boom"
    return rec


def merge(d, o):
    for k, v in o.items():
        d[k] = d.get(k, 0) + v


def arm(f):
    k = f["kind"]
    if k == "read":
        disk.rule("error", "or", disk.read_clock + 1 + frac(f["at"], 30), 1, err="EIO")
    elif k == "EINTR":
        disk.rule("error", "W", disk.clock + 1 + frac(f["at"], 6), 1, err="EINTR")
    elif k == "short":
        disk.rule("short", "W", disk.clock + 1 + frac(f["at"], 6), 1)
    elif k == "sigint":
        disk.rule("sigint", "WTSRO", disk.clock + 1 + frac(f["at"], 7), 1)
    elif k == "open":
        disk.rule("error", "O", disk.clock + 1, 1, err=f["err"])
    else:
        disk.rule("error", "WT", disk.clock + 1 + frac(f["at"], f.get("span", 6)), 1, err=f["err"])


def read(folder, data):
    path = os.path.join(folder, "look.h5")
    with open(path, "wb") as h:
        h.write(data)
    out = {}
    with h5py.File(path, "r") as h5:
        for name, g in h5.items():
            out[name] = dict(attrs={k: v.item() if hasattr(v, "item") else v for k, v in g.attrs.items()},
                             sets={k: (d.dtype.str, d[...]) for k, d in g.items()})
    return out


def run(plan, R):
    exs = plan["exs"]
    if not exs or any(e["freq"] < 1 or e["targets"] < 1 for e in exs) or any(o["ex"] >= len(exs) or o["n"] < 1 for l in plan["lives"] for o in l["ops"]):
        raise InvalidPlan("experiments")
    if any(e >= len(exs) for l in plan["lives"] for e in l["early"]):
        raise InvalidPlan("early")
    folder = workdir(R, "disk")
    steps, existing = [0] * len(exs), frozenset()
    described, metadata = set(), {}
    wrote = [[] for _ in exs]                # logged steps, in order, that are (or are to be) in the file
    saved = [0] * len(exs)                   # how many of them must be in the file
    ran = {}
    for k, life in enumerate(plan["lives"]):
        try:
            out = in_child(lifetime, plan, k, folder, steps, existing)
        except ChildDied as e:
            R.violate("killed", f"the process died ({e.what})")
        R.step("process lifetimes", 1)
        opened = set(out["opened"])
        described |= set(life["early"])
        if life["metadata"]:
            metadata.update({f"made{k}_{e}": [k, e] for e in life["early"]})
        base = {e: len(wrote[e]) for e in range(len(exs))}
        for rec in out["recs"]:
            e = rec["ex"]
            ex = exs[e]
            for x, n in rec["hits"].items():
                R.fault(x, n)
            if rec["boom"] is not None:
                R.fault("metric raises")
            R.step("logged values", len(rec["logged"]) * ex["targets"])
            R.state(rec["op"], rec["err"], ex["freq"], ex["targets"], len(exs), k, rec["again"], *rec["hits"])
            n0 = len(wrote[e])
            wrote[e] += rec["logged"]
            for n, how, data in rec["shots"]:
                have = n0 + n if how == "interval" else n0 + n
                due = have if how == "explicit" else max(saved[e], have // ex["freq"] * ex["freq"])
                saved[e] = max(saved[e], due)
                seen = in_child(read, workdir(R, "look"), data)
                what = f"after {rec['op']} ({rec['err'] or 'no error'}{', repeated' if rec['again'] and rec['op'] != 'run' else ''}) in lifetime {k}"
                for e2 in range(len(exs)):
                    judge_log(R, exs[e2], e2, seen, wrote[e2] if e2 != e else wrote[e][:have], saved[e2], e2 in rec["opened"] or e2 in existing, what, exact=e2 == e)
                judge_described(R, described, metadata, seen, what)
            if rec["op"] == "run" and rec["err"] is None:
                ran[e] = rec["params"]
                judge_run(R, e, seen, ran, f"in lifetime {k}")
            elif rec["op"] == "run":
                R.fault("experiment raises")
            R.event("op", what=rec["op"], ex=e, logged=rec["logged"], err=rec["err"], hits=rec["hits"])
        for e in out["tidied"]:
            saved[e] = len(wrote[e])
        steps = out["steps"]
        existing = existing | opened | set(map(tuple, out["runs"]))
        if out["final"] is not None:
            seen = in_child(read, workdir(R, "look"), out["final"])
            for e in range(len(exs)):
                judge_log(R, exs[e], e, seen, wrote[e], saved[e], e in existing, f"after lifetime {k}", exact=e in out["tidied"])
            judge_described(R, described, metadata, seen, f"after lifetime {k}")
            for e in ran:
                judge_run(R, e, seen, ran, f"after lifetime {k}")
            # what a process did not store is gone with it
            for e in range(len(exs)):
                if e in existing:
                    n = len(seen[f"ex{e}"]["sets"]["metric0"][1])
                    wrote[e], saved[e] = wrote[e][:n], n


def judge_log(R, ex, e, seen, steps, least, there, what, exact):
    name = f"ex{e}"
    if not there:
        return
    R.check(name in seen, "missing", f"{what}: experiment {e} is not in the file")
    lengths = set()
    for j in range(ex["targets"]):
        R.check(f"metric{j}" in seen[name]["sets"], "missing", f"{what}: target {j} of experiment {e} is not in the file")
        dtype, got = seen[name]["sets"][f"metric{j}"]
        with np.errstate(over="ignore"):
            want = np.array([value(ex, t, j) for t in steps[:len(got)]], dtype=np.float64).astype(np.float32)
        R.check(len(got) <= len(steps) and np.array_equal(np.asarray(got, np.float64).astype(np.float32), want, equal_nan=True), "values",
                lambda: f"{what}: target {j} of experiment {e} holds {got.tolist()}, logged were {[value(ex, t, j) for t in steps]}")
        lengths.add(len(got))
    R.check(len(lengths) == 1, "lengths", f"{what}: the targets of experiment {e} have {sorted(lengths)} values")
    n = lengths.pop()
    R.check(n >= least, "missing-values", f"{what}: {n} values of experiment {e} are stored, {least} should be")


def judge_described(R, described, metadata, seen, what):
    for e in described:
        got = seen.get(f"ex{e}", {}).get("attrs", {})
        R.check(got.get("note") == f"experiment {e}" and got.get("number") == e, "attributes",
                lambda: f"{what}: the attributes of experiment {e} are {got}, without those it was created with")
    for name, v in metadata.items():
        got = seen.get("metadata", {}).get("sets", {}).get(name)
        R.check(got is not None and got[1].tolist() == v, "metadata", lambda: f"{what}: the metadata {name} is {got}, should be {v}")


def judge_run(R, e, seen, ran, what):
    p = ran[e]
    g = seen[f"ex{e}"]
    want = {"note": f"experiment {e}", "number": e, "rank": p["rank"], "rate": p["rate"]}
    for k, v in want.items():
        R.check(g["attrs"].get(k) == v, "attributes", lambda: f"{what}: experiment {e} has {k} {g['attrs'].get(k)!r}, should be {v!r}")
    X = p["rank"] * 0.5
    sets = {"factors": np.arange(6.0).reshape(2, 3) * p["rank"] + e, "loss": np.array([p["rate"] * X]),
            "fit": np.array([p["rate"] * X + X + p["rank"]])}
    for k, v in sets.items():
        R.check(k in g["sets"] and np.array_equal(g["sets"][k][1], v), "outputs",
                lambda: f"{what}: experiment {e} has {k} {g['sets'].get(k)}, should be {v.tolist()}")
