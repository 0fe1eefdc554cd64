"""C02: a failed checkpoint write is reported and loses nothing."""
import os

from sim.scen.common import *
from sim.seams import image_after, read_tree, write_tree

ID = "C02"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one evaluation is one history: a checkpointing fit whose disk fails at planned operations, continued after "
        "each failure, compared with the fault-free run of the same world")
MEASURE = ("distinct (fault kind, disk operations hit, part of the checkpoint window, first/later/last checkpoint, "
           "raised or not, model kind)")
STUB = STUB_DISK
ASSUMES = ["a disk operation that reports an error had no effect, except writes cut short"]
TOL = 1e-9


def gen_fault(rng):
    kind = rng.choice(["ENOSPC", "EIO", "EDQUOT", "ENOSPC", "EIO", "sigint", "sigint", "quota", "read", "short", "EINTR"])
    f = dict(kind=kind, window=rng.random(), at=rng.random(), count=rng.choice([1, 1, 1, 2, -1, -1]))
    f["ops"] = {"quota": "", "read": rng.choice(["or", "r"]), "short": rng.choice(["W", "r"]), "EINTR": rng.choice(["W", "r", "S"]),
                "sigint": rng.choice(["WTSROU", "W", "R", "S", "O", "WTSRU", "r"])}.get(
        kind, rng.choice(["W", "WTSRO", "WTSRO", "S", "R", "O", "T", "WTSROU", "U"]))
    f["arg"] = rng.choice([1, 3, 100, 1000])
    if kind == "EINTR":
        f["count"] = rng.choice([1, 2, 3])
    return f


def gen(rng):
    data, model = gen_world(rng)
    model["max_its"] = rng.randint(2, 9)
    model["freq"] = rng.choice([1, 1, 2, 3, None])
    return dict(data=data, model=model, loggers=pick_loggers(rng), faults=[gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))])


def reference(plan, folder):
    spec, data = plan["model"], Data(plan["data"])
    seed(plan["np_seed"])
    path = os.path.join(folder, "ck.h5")
    obs, logs = SimLogger(), make_loggers(plan["loggers"])
    dec = make(spec, path=path, loggers=logs + [obs])
    disk.start(folder)
    with quiet():
        start(dec, data, spec)
    end = (disk.clock, disk.read_clock, sum(o.b for o in disk.journal() if o.op == "W"))
    return dict(rows=obs.rows, end=end, log=memory_log(logs), tree=read_tree(folder), current=int(dec.current_iteration),
                final=snapshot(dec))


def faulty(plan, folder, windows):
    spec, data = plan["model"], Data(plan["data"])
    seed(plan["np_seed"])
    path = os.path.join(folder, "ck.h5")
    obs, logs = SimLogger(), make_loggers(plan["loggers"])
    dec = make(spec, path=path, loggers=logs + [obs])
    disk.start(folder)
    rounds = []
    for i, f in enumerate(list(plan["faults"]) + [None]):
        if f is not None:
            place(f, windows)
        err = None
        q0 = disk.quota_hits()
        with quiet():
            try:
                if i == 0:
                    start(dec, data, spec)
                else:
                    dec.continue_fit()
            except SimBudget:
                raise
            except BaseException as e:
                err = (type(e).__name__, str(e)[:200], sut_frame(e))
        ops = disk.journal()
        hits = disk.clear()
        disk.quota(-1)
        q = disk.quota_hits() - q0
        if q:
            hits["quota"] = q
        tree = read_tree(folder)
        if err is None and hits:
            # the fit has moved on: what it did not report must not be at risk any more
            lost = image_after({}, ops, len(ops), lose=lambda i, o: 0)
            safe = {k: v for k, v in lost.items() if k in tree and k.endswith(".h5")}
        else:
            safe = None
        rounds.append(dict(err=err, hits=hits, tree=tree, safe=safe, done=len(obs.rows), current=int(dec.current_iteration),
                           log=memory_log(logs)))
        if err is None and f is None:
            break
    return dict(rounds=rounds, rows=obs.rows, final=snapshot(dec), log=memory_log(logs))


def place(f, windows):
    """Put a fault into a checkpoint write: operations are numbered from here on."""
    w = windows[frac(f["window"], len(windows))]
    lo, hi = (w["rlo"], w["rhi"]) if set(f["ops"]) <= set("or") else (w["lo"], w["hi"])
    now = disk.read_clock if set(f["ops"]) <= set("or") else disk.clock
    nth = max(lo + 1 + frac(f["at"], max(hi - lo, 1)), now + 1) if f["ops"] else 0
    if nth == now + 1 and lo < now:
        nth = now + 1 + frac(f["at"], max(hi - lo, 1))
    k = f["kind"]
    if k == "quota":
        disk.quota(int(f["at"] * w["bytes"]))
    elif k == "sigint":
        disk.rule("sigint", f["ops"], nth, 1)
    elif k == "short":
        disk.rule("short", f["ops"], nth, f["count"], arg=f["arg"])
    else:
        disk.rule("error", f["ops"], nth, f["count"], err={"read": "EIO"}.get(k, k))


def read_state(plan, tree, folder, upto):
    write_tree(folder, tree)
    path = os.path.join(folder, "ck.h5")
    if "ck.h5" not in tree:
        return {}, (None, "no file"), {}
    found, latest = load_labels(Data(plan["data"]), plan["model"], path, upto)
    try:
        log = stored_log(path)
    except Exception as e:
        log = f"{type(e).__name__}: {e}"
    return found, latest, log


def cut(log, n):
    return {k: (its[:n], vals[:n]) for k, (its, vals) in log.items()}


def run(plan, R):
    spec = plan["model"]
    validate(plan["data"], spec)
    if spec["max_its"] < 1 or any(f["kind"] == "quota" and f["ops"] for f in plan["faults"]):
        raise InvalidPlan("max_its")
    ref = in_child(reference, plan, workdir(R, "ref"))
    rows, ops_end = ref["rows"], ref["end"]
    refuse_degenerate(spec, [r["snap"] for r in rows])
    its = [int(r["it"]) for r in rows]
    upto = len(its) + 2
    due = expected_labels(its, spec["freq"])
    windows = []
    for j, r in enumerate(rows):
        n = rows[j + 1] if j + 1 < len(rows) else dict(clock=ops_end[0], rclock=ops_end[1])
        if r["it"] in due:
            windows.append(dict(it=int(r["it"]), lo=r["clock"], hi=n["clock"], rlo=r["rclock"], rhi=n["rclock"], bytes=ops_end[2]))
    if not windows:
        raise InvalidPlan("no checkpoints")
    R.event("reference", its=its, due=due, ops=ops_end, snaps=[r["snap"].hash for r in rows])
    out = in_child(faulty, plan, workdir(R, "disk"), windows)
    R.step("iterations", len(rows) + len(out["rows"])); R.step("disk operations", 2 * ops_end[0])
    good = due_before = 0
    for i, rd in enumerate(out["rounds"]):
        f = plan["faults"][i] if i < len(plan["faults"]) else None
        for k, n in rd["hits"].items():
            R.fault(k, n)
        R.event("round", err=rd["err"] and rd["err"][0], hits=rd["hits"], done=rd["done"], current=rd["current"])
        last_written = spec_due(its[:rd["done"]], spec["freq"])
        R.state(f and f["kind"], f and f["ops"], rd["err"] is not None, bool(rd["hits"]), spec["kind"],
                f and frac(f["at"], 4), len(last_written) > 1, rd["done"] == len(its))
        R.check(rd["err"] is None or rd["hits"], "spurious-error",
                lambda: f"the fit raised {rd['err']} although no disk operation failed")
        benign = f is None or f["kind"] in ("short", "EINTR")
        R.check(rd["err"] is None or not benign, "benign-error",
                lambda: f"a {f['kind']} transfer made the fit raise {rd['err']}")
        R.check(rd["current"] == rd["done"], "lost-count",
                lambda: f"{rd['done']} iterations were completed, but the decomposer says {rd['current']}")
        for n, (li, _) in rd["log"].items():
            R.check(li == its[:rd["done"]], "memory-log", lambda: f"{n} holds iterations {li} after {rd['done']} iterations")
        found, latest, log = in_child(read_state, plan, rd["tree"], workdir(R, "image"), upto)
        if rd["safe"] is not None and rd["safe"] != {k: v for k, v in rd["tree"].items() if k.endswith(".h5")}:
            safe, top, _ = in_child(read_state, plan, rd["safe"], workdir(R, "image"), upto)
            R.check(top[0] == latest[0], "silent-sync-failure",
                    lambda: f"{rd['hits']} happened, the fit carried on, and a power loss would leave checkpoint {top} as the latest, not {latest[0]}")
        if rd["err"] is None:
            R.check(rd["done"] == len(its), "stopped-early", f"the fit returned after {rd['done']} of {len(its)} iterations")
            # everything that did not fail must be there
            must = [l for l in due if l not in failed_labels(out["rounds"][:i], its)]
            check_labels(R, found, must, out["rows"], latest, its[-1])
            R.check(log == out["log"], "log-incomplete",
                    lambda: f"the stored log after the fit returned is {brief(log)}, in memory it is {brief(out['log'])}")
        else:
            R.probe("reported:" + rd["err"][0])
            attempted = rd["done"] - 1
            before = [l for l in due_so_far(its, spec["freq"], attempted) if l not in failed_labels(out["rounds"][:i], its)]
            for l in before:
                R.check(l in found, "lost-checkpoint",
                        lambda: f"after the failed write of checkpoint {attempted}, checkpoint {l} cannot be loaded any more")
            for l, s in found.items():
                R.check(l < len(out["rows"]) and s.same(out["rows"][l]["snap"]), "wrong-checkpoint",
                        lambda: f"after the failed write of checkpoint {attempted}, checkpoint {l} is not what iteration {l} produced")
            R.check(latest[0] in (found and [max(before, default=None), attempted, max(found)] or [None]), "wrong-latest",
                    lambda: f"after the failed write of checkpoint {attempted} the latest is {latest}; there are {sorted(found)}")
            if "ck.h5" in rd["tree"] and found:
                n = max(found) + 1
                R.check(log == cut(rd["log"], n), "log-damaged",
                        lambda: f"after the failed write of checkpoint {attempted} the stored log is {brief(log)}, "
                                f"should be {brief(cut(rd['log'], n))}")
    # the whole trajectory equals the fault-free one
    got = [int(r["it"]) for r in out["rows"]]
    R.check(got == its, "trajectory", f"iterations {got} instead of {its}")
    for a, b in zip(rows, out["rows"]):
        if not a["snap"].same(b["snap"]):
            R.probe("nearly equal trajectory")
            R.check(a["snap"].same(b["snap"], TOL), "trajectory",
                    lambda: f"iteration {a['it']} differs from the fault-free run by {a['snap'].distance(b['snap']):.3g} (relative)")
    R.check(out["final"].same(ref["final"], TOL) or same_model(Data(plan["data"]), out["final"], ref["final"], TOL), "trajectory",
            "the returned model differs from the fault-free one")
    for n, (li, lv) in ref["log"].items():
        R.check(out["log"][n][0] == li, "memory-log", f"{n}: {out['log'][n][0]} instead of {li}")


def spec_due(its, freq):
    return expected_labels(its, freq, ended=False)


def due_so_far(its, freq, before):
    return [l for l in expected_labels(its, freq, ended=False) if l < before]


def failed_labels(rounds, its):
    return [rd["done"] - 1 for rd in rounds if rd["err"] is not None and rd["done"] - 1 != its[-1]]


def check_labels(R, found, must, rows, latest, last):
    for l in must:
        R.check(l in found, "lost-checkpoint", f"checkpoint {l} cannot be loaded after the fit returned; there are {sorted(found)}")
    for l, s in found.items():
        R.check(l < len(rows) and s.same(rows[l]["snap"]), "wrong-checkpoint", lambda: f"checkpoint {l} is not what iteration {l} produced")
    R.check(latest[0] == last, "wrong-latest", f"the latest checkpoint is {latest[0]}, the last iteration is {last}")


def brief(log):
    if isinstance(log, str):
        return log
    return {k: i for k, (i, v) in log.items()} or "empty"
