"""C05: every iteration is logged once, in order, with its own value."""
import os

from sim.scen.common import *
from sim.seams import image_after, read_tree, write_tree
from sim.world import LOGGERS, ref_measures

ID = "C05"
WIDE = True
LEVEL = "fault_enumeration"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("one evaluation is one chain of process lifetimes with metric loggers and a checkpoint file: fits, continued fits, refits, "
        "rewinds and explicit stores, with failing writes, Ctrl-C and failed allocations; lifetimes end cleanly, between two operations "
        "or at a disk operation (the next starts from the crash image); memory and disk logs are compared with the recorded iterations")
MEASURE = "distinct (model kind, operation, failure, end of the predecessor, loggers, frequency, resumed from latest/older)"
STUB = STUB_DISK
ASSUMES = ["a logger logs after the iteration it belongs to; two loggers of one class cannot share a file"]
EXPECTED = {"KeyboardInterrupt", "MemoryError", "LinAlgError", "OSError", "UserStop"}
FIELD = {cls.__name__: name for cls, name in LOGGERS.values()}


class Died(BaseException):
    pass


class UserStop(Exception):
    """A user's logger stops the fit; the iteration does not count."""


def gen_op(rng, first):
    op = dict(op=rng.choice(["fit", "fit", "staged"]) if first else
              rng.choice(["continue"] * 6 + ["refit", "store", "rewind", "noop"]), n=rng.randint(1, 6) if rng.random() < 0.97 else rng.randint(30, 110), at=rng.random())
    r = rng.random()
    if r < 0.2:
        op["disk"] = dict(kind=rng.choice(["error", "error", "short", "sigint"]), at=rng.random(), err=rng.choice(["ENOSPC", "EIO", "EDQUOT"]),
                          count=rng.choice([1, 1, -1]))
    elif r < 0.35:
        op["kernel"] = dict(at=rng.random(), span=rng.choice([10, 30, 80]), exc=rng.choice(["KeyboardInterrupt", "MemoryError", "LinAlgError"]))
    elif r < 0.45:
        op["user"] = dict(at=rng.random())
    return op


def gen(rng):
    data, model = gen_world(rng)
    model["freq"] = rng.choice([1, 1, 2, 3, 4, None])
    model["tol"] = rng.choice([-1, -1, -1, 1e-3])
    lives = []
    for k in range(rng.choice([1, 2, 2, 3])):
        lives.append(dict(ops=[gen_op(rng, k == 0 and i == 0) for i in range(rng.randint(1, 4))], end=rng.choice(["exit", "die", "crash", "crash"]),
                          at=rng.random(), torn=rng.random(), latest=rng.random() < 0.8, label=rng.random()))
    return dict(data=data, model=model, lives=lives, loggers=pick_loggers(rng, 3) or ["loss"], file=rng.random() < 0.9)


def lifetime(plan, k, image, folder):
    """One process.  Reports what it did, saw in memory and found on disk; the parent judges."""
    write_tree(folder, image)
    spec, data, life = plan["model"], Data(plan["data"]), plan["lives"][k]
    path = os.path.join(folder, "ck.h5") if plan["file"] else None
    seed(plan["np_seed"] + k)
    logs = make_loggers(plan["loggers"])
    obs = SimLogger()
    dec = make(spec, path=path, loggers=logs + [obs])
    seen, disk_seen, calls = [0] * len(logs), [], []
    stop, user = [None], [None]

    def on_log(d, row):
        with kernels.off():
            if user[0] is not None and len(obs.rows) >= user[0]:
                obs.rows.pop()
                user[0] = "done"
                raise UserStop("stopped by a user's logger")
            row["news"] = []
            for i, l in enumerate(logs):
                n = len(l.log_metrics)
                row["news"].append((type(l).__name__, [int(x) for x in l.log_iterations[seen[i]:]], [float(x) for x in l.log_metrics[seen[i]:]]))
                seen[i] = n
            if stop[0] is not None and len(obs.rows) >= stop[0]:
                raise Died
            if path and row["it"] > 0 and os.path.exists(path):
                disk_seen.append((len(obs.rows) - 1, stored_log(path)))
    obs.on_log = on_log
    disk.start(folder)
    unborn = True
    died = False
    with quiet():
        if k:
            attach(dec, data)
            label = None
            if not life["latest"]:
                have = labels(path)
                label = have[frac(life["label"], len(have))]
            dec.load_checkpoint(path, label)
            unborn = False
        for i, op in enumerate(life["ops"]):
            kind = op["op"]
            if unborn and kind not in ("fit", "staged", "refit"):
                continue
            if kind in ("store", "rewind") and (path is None or int(dec.current_iteration) == 0):
                continue
            if kind == "rewind" and not labels(path):
                continue
            n0, c0 = len(obs.rows), 0 if kind in ("fit", "staged", "refit") else int(dec.current_iteration)
            budget = c0 + op["n"]
            kernels.reset()
            if op.get("kernel"):
                kernels.plan = {1 + frac(op["kernel"]["at"], op["kernel"]["span"]): op["kernel"]["exc"]}
            if op.get("disk") and path:
                f = op["disk"]
                disk.rule(f["kind"], "WTSR", disk.clock + 1 + frac(f["at"], 12), f["count"] if f["kind"] == "error" else 1, err=f["err"])
            if life["end"] == "die" and i == len(life["ops"]) - 1:
                stop[0] = n0 + 1 + frac(life["at"], op["n"])
            user[0] = n0 + 1 + frac(op["user"]["at"], op["n"]) if op.get("user") else None
            err = None
            try:
                with kernels.on():
                    if kind in ("fit", "refit"):
                        unborn = True
                        start(dec, data, spec, max_its=budget)
                    elif kind == "staged":
                        unborn = True
                        start(dec, data, spec, max_its=0)
                        dec.continue_fit(max_its=budget)
                    elif kind in ("continue", "noop"):
                        dec.continue_fit(max_its=budget if kind == "continue" else c0)
                    elif kind == "store":
                        dec.store_checkpoint()
                    elif kind == "rewind":
                        have = labels(path)
                        dec.load_checkpoint(path, have[frac(op["at"], len(have))])
            except Died:
                died = True
            except BaseException as e:
                if type(e).__name__ not in EXPECTED or not (kernels.fired or disk.hits() or user[0] == "done"):
                    raise
                err = type(e).__name__
            hits = disk.clear() if path else {}
            fired = [(n, e) for _, n, e in kernels.fired] + [("a logger", "exception")]*(user[0] == "done")
            user[0] = None
            kernels.reset()
            if len(obs.rows) > n0 or err is None:
                unborn = False
            calls.append(dict(kind=kind, c0=c0, n0=n0, n1=len(obs.rows), err=err, hits=hits, fired=fired, died=died, current=int(getattr(dec, "current_iteration", 0)),
                              disk=stored_log(path) if path and os.path.exists(path) and not died else None, memory=memory_log(logs)))
            if died:
                break
    disk.stop()
    return dict(rows=[(int(r["it"]), r["snap"], r["news"]) for r in obs.rows], calls=calls, disk_seen=disk_seen, ops=disk.journal() if path else [],
                memory=memory_log(logs), tree=read_tree(folder))


def labels(path):
    if not os.path.exists(path):
        return []
    with h5py.File(path, "r") as h5:
        return sorted(int(k[11:]) for k in h5 if k.startswith("checkpoint_"))


def look(image, folder):
    write_tree(folder, image)
    path = os.path.join(folder, "ck.h5")
    return stored_log(path), labels(path)


def run(plan, R):
    spec = plan["model"]
    validate(plan["data"], spec)
    if not plan["lives"] or not plan["loggers"] or not plan["lives"][0]["ops"] or plan["lives"][0]["ops"][0]["op"] not in ("fit", "staged"):
        raise InvalidPlan("lives")
    data = Data(plan["data"])
    names = [LOGGERS[n][0].__name__ for n in plan["loggers"]]
    seq = []                                    # what the file's log may hold: (iteration, {logger: value}) in order of execution
    marks = {0}                                 # lengths a completed checkpoint can have left
    sure = 0                                    # the length the last completed checkpoint left
    image = {}
    prev_end = None
    for k, life in enumerate(plan["lives"]):
        if k and "ck.h5" not in image:
            R.probe("nothing to resume from")
            break
        out = in_child(lifetime, plan, k, image, workdir(R, "disk"))
        base = len(seq)
        R.step("process lifetimes", 1); R.step("iterations", len(out["rows"])); R.step("disk operations", len(out["ops"]))
        for j, (it, snap, news) in enumerate(out["rows"]):
            values = {}
            ref = ref_measures(spec, data, snap)
            for cls, its, vals in news:
                R.check(its == [it] and len(vals) == 1, "memory", lambda: f"{cls} recorded iterations {its} with {len(vals)} values in iteration {it}")
                values[cls] = vals[0]
                bad = wrong(FIELD[cls], vals[0], ref, data, snap)
                R.check(bad is None, "value", lambda: f"{cls} recorded {vals[0]!r} for iteration {it}, {bad}")
            seq.append((it, values))
        m = sure
        for c in out["calls"]:
            its = [r[0] for r in out["rows"][c["n0"]:c["n1"]]]
            R.check(its == list(range(c["c0"], c["c0"] + len(its))), "numbering", f"{c['kind']} after {c['c0']} iterations logged iterations {its}")
            mem = c["memory"]
            for cls in names if not c["died"] else ():
                want = ([s[0] for s in seq[base:base + c["n1"]]], [s[1][cls] for s in seq[base:base + c["n1"]]])
                R.check(mem[cls] == want, "memory", lambda: f"after {c['kind']} {cls} holds {mem[cls]}, recorded were {want}")
            if c["err"] is None and not c["died"] and c["kind"] in ("fit", "refit", "staged", "continue", "noop"):
                R.check(c["current"] == c["c0"] + len(its), "numbering", f"{c['kind']} ended with {c['current']} iterations, the last logged is {its[-1:]}")
            for x, n in c["hits"].items():
                R.fault(x, n)
            for name, e in c["fired"]:
                R.fault(f"{e} in {name}")
            # lengths of the stored log this call can leave
            poss, sure_now = {m}, m
            for j in range(c["n0"], c["n1"]):
                it = out["rows"][j][0]
                scheduled = spec["freq"] is not None and (it + 1) % spec["freq"] == 0
                last = j == c["n1"] - 1
                if scheduled and not (last and c["died"]):
                    marks.add(base + j + 1)
                    failed = last and c["err"] is not None and c["hits"]
                    poss = poss | {base + j + 1} if failed else {base + j + 1}
                seen = [s for n, s in out["disk_seen"] if n == j + 1]
                if seen and not last and plan["file"]:
                    judge_disk(R, seen[0], seq, names, poss, f"after iteration {it} of {c['kind']}")
            if plan["file"] and not c["died"] and c["kind"] != "rewind":
                end = base + c["n1"]
                if c["err"] is None:
                    # the last iteration is stored when the call returns (unless nothing happened at all)
                    ended = {end} if c["n1"] > c["n0"] or c["kind"] == "store" or (c["kind"] in ("continue", "noop") and c["current"]) else poss
                    marks.add(end)
                    poss = ended
                elif c["hits"] or (c["fired"] and spec["kind"] == "cmtf"):     # perhaps interrupted after the last checkpoint
                    marks.add(end)
                    poss = poss | {end}
                if c["disk"] is not None:
                    m = judge_disk(R, c["disk"], seq, names, poss, f"after {c['kind']} ({c['err']})")
                else:
                    R.check(0 in poss or c["hits"], "disk", f"after {c['kind']} there is no file")
                    m = 0
            elif c["died"]:
                m = max(poss)
            R.state(spec["kind"], c["kind"], c["err"], prev_end, len(names), spec["freq"], life["latest"], k, *c["hits"])
            R.event("call", call=c["kind"], its=its, err=c["err"], stored=m)
        sure = m
        prev_end = life["end"]
        if not plan["file"]:
            break
        if life["end"] == "crash" and out["ops"]:
            n = frac(life["at"], len(out["ops"]) + 1)
            torn = None
            if n < len(out["ops"]) and out["ops"][n].op == "W" and life["torn"] < 0.5:
                torn = frac(life["torn"] * 2, len(out["ops"][n].p1) + 1)
            image = image_after(image, out["ops"], n, torn=torn)
            R.fault("crash")
        else:
            image = out["tree"]
            if life["end"] == "die":
                R.fault("process death")
        m = 0
        if "ck.h5" in image:
            stored, have = in_child(look, image, workdir(R, "image"))
            m = judge_disk(R, stored, seq, names, marks if life["end"] == "crash" else {sure}, f"after lifetime {k} ({life['end']})")
            if not have:
                image = {}
        R.event("end", end=life["end"], stored=m)
        seq, marks, sure = seq[:m], {x for x in marks if x <= m} | {m}, m


def wrong(field, value, ref, data, snap):
    if not np.isfinite(value):
        return "which is not finite"
    if field is None:
        want = float(np.sqrt((snap.f[0] ** 2).sum()))
        tol = 1e-12 * want
    else:
        want = ref[field]
        tol = {"SSE": 1e-9 * data.norm2 + 1e-7 * ref["SSE"], "loss": 1e-9 * data.norm2 + 1e-7 * ref["loss"]}
        tol["MSE"], tol["explained_variance"] = tol["SSE"] / data.size, tol["SSE"] / data.tensor_norm2
        if field == "RMSE":
            return None if abs(value ** 2 - ref["MSE"]) <= tol["MSE"] + 1e-12 * ref["MSE"] else f"the model's {field} is {want!r}"
        tol = tol[field]
    return None if abs(value - want) <= tol else f"the model's {field} is {want!r}"


def judge_disk(R, stored, seq, names, allowed, when):
    """The stored logs must be a prefix of what was recorded, ending at a completed checkpoint.  Returns its length."""
    if not stored:
        R.check(0 in allowed, "disk", lambda: f"{when} no log is stored, it should hold {sorted(allowed)} iterations")
        return 0
    R.check(sorted(stored) == sorted(names), "disk", lambda: f"{when} the file holds the logs {sorted(stored)}, attached are {sorted(names)}")
    n = len(stored[names[0]][0])
    for cls in names:
        its, vals = stored[cls]
        want = ([s[0] for s in seq[:n]], [s[1][cls] for s in seq[:n]])
        R.check((its, vals) == want and len(seq) >= n, "disk", lambda: f"{when} the stored {cls} has iterations {its} and values {vals}, recorded were {want}")
    R.check(n in allowed, "disk", lambda: f"{when} the stored log holds {n} iterations, it should hold {sorted(allowed)} of {[s[0] for s in seq]}")
    return n
