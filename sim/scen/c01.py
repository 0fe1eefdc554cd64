"""C01: completed checkpoints survive a crash at any instant."""
import os

from sim.scen.common import *
from sim.seams import image_after, read_tree, write_tree
from sim.core import hash_arrays

ID = "C01"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one evaluation is one history: a checkpointing fit killed (or cut off from power) at planned instants, its disk "
        "image read back by a fresh process, and restarted on that image, up to three times")
MEASURE = ("distinct (kind of crash, kind of disk operation at the crash, window before/in/after a checkpoint write, "
           "round, model kind, number of completed checkpoints)")
REAL = REAL
STUB = STUB_DISK
ASSUMES = ["a killed process leaves exactly the writes it issued, the last one possibly torn",
           "after a power loss, data not covered by a later fsync may be missing or cut in any write, and "
           "directory changes survive in order up to some point not before the last fsync of the directory's files"]


def gen(rng):
    data, model = gen_world(rng)
    model["max_its"] = rng.randint(3, 9)
    model["freq"] = rng.choice([1, 1, 2, 2, 3, 4, None])
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rounds.append(dict(extra=rng.randint(1, 4), api=rng.choice(["load", "load", "from_checkpoint", "path", "fresh"]), loggers=pick_loggers(rng, 2) if not rounds else rounds[0]["loggers"],
                           crashes=[dict(kind=rng.choice(["kill", "kill", "power"]), where=rng.choice(["any", "inside", "inside", "inside", "edge"]),
                                         at=rng.random(), torn=rng.random() if rng.random() < 0.6 else None,
                                         lose=rng.choice(["all", "none", "some", "some", "tail"]), lose_seed=rng.randrange(2 ** 31),
                                         names=rng.random(), names_all=rng.random() < 0.6)
                                    for _ in range(rng.randint(1, 4))]))
    return dict(data=data, model=model, rounds=rounds)


def lifetime(plan, k, image, folder, max_its):
    """One process: fit (or resume) until its end, on a journalled disk."""
    write_tree(folder, image)
    spec, data = plan["model"], Data(plan["data"])
    seed(plan["np_seed"] + k)
    path = os.path.join(folder, "ck.h5")
    obs = SimLogger()
    names = plan["rounds"][k]["loggers"]
    resume = plan["rounds"][k]["api"] if "ck.h5" in image else "fresh"
    init = {"from_checkpoint": "from_checkpoint", "path": path}.get(resume, spec["init"])
    dec = make(spec, path=path, loggers=make_loggers(names) + [obs], max_its=max_its, init=init)
    disk.start(folder)
    with quiet():
        if resume == "load":
            attach(dec, data)
            dec.load_checkpoint(path)
            dec.continue_fit()
        elif resume == "fresh":         # perhaps into a file that holds the checkpoints of another run
            start(dec, data, spec)
        else:
            fit(dec, data, **({"initial_decomposition": path} if resume == "from_checkpoint" else {}))
    end = disk.clock
    disk.stop()
    return dict(rows=[(int(r["it"]), r["snap"], r["clock"]) for r in obs.rows], end=end, ops=disk.journal(),
                current=int(dec.current_iteration), tree=sorted(read_tree(folder)))


def read_image(plan, image, folder, upto):
    write_tree(folder, image)
    return load_labels(Data(plan["data"]), plan["model"], os.path.join(folder, "ck.h5"), upto)


def run(plan, R):
    validate(plan["data"], plan["model"])
    spec = plan["model"]
    if not plan["rounds"]:
        raise InvalidPlan("rounds")
    freq = spec["freq"]
    image, history, writes = {}, {}, [{}]      # history: label -> every snap an iteration with that label produced
    max_its = spec["max_its"]
    for k, rnd in enumerate(plan["rounds"]):
        if not rnd["crashes"] or rnd["extra"] < 1:
            raise InvalidPlan("crashes")
        if k:
            max_its += rnd["extra"]
        life = in_child(lifetime, plan, k, image, workdir(R, "disk"), max_its)
        rows, ops = life["rows"], life["ops"]
        R.step("iterations", len(rows)); R.step("disk operations", len(ops)); R.step("process lifetimes", 1)
        R.event("lifetime", round=k, its=[r[0] for r in rows], ops=len(ops), snaps=[r[1].hash for r in rows])
        for it, snap, _ in rows:
            history.setdefault(it, []).append(snap)
        if not rows:
            R.probe("lifetime without iterations")
        # windows of disk activity between an iteration's end and the next one's: (label, first op, end op)
        wins = []
        for j, (it, snap, clock) in enumerate(rows):
            stop = rows[j + 1][2] if j + 1 < len(rows) else life["end"]
            lo = sum(o.clock <= clock for o in ops)
            hi = sum(o.clock <= stop for o in ops)
            due = freq is not None and (it + 1) % freq == 0
            if due or j + 1 == len(rows):
                wins.append((it, lo, hi, snap))
            R.check(not (due or j + 1 == len(rows)) or hi > lo, "no-write",
                    f"iteration {it} should have been checkpointed, but nothing was written")
        base_state = writes[-1]                 # labels -> snap after the last completed write
        states = [base_state]
        for it, lo, hi, snap in wins:
            states.append({**states[-1], it: snap})
        next_image = None
        for c in rnd["crashes"]:
            n = pick_point(c, wins, len(ops))
            done = sum(hi <= n for _, _, hi, _ in wins)
            inside = done < len(wins) and wins[done][1] < n
            img, how = crash(c, image, ops, n)
            R.fault(how)
            at = ops[n].op if n < len(ops) else "end"
            R.state(how, at, inside, k, spec["kind"], min(done, 4))
            folder = workdir(R, "image")
            if "ck.h5" not in img:
                R.check(not (states[done] and how != "power loss"), "file-gone",
                        lambda: f"after a {how} before disk operation {n} there is no checkpoint file; "
                                f"completed: {sorted(states[done])}")
                R.event("crash", how=how, n=n, labels=None)
                found, latest = {}, (None, None)
            else:
                upto = max(list(history) + [0]) + 2
                found, latest = in_child(read_image, plan, img, folder, upto)
                R.event("crash", how=how, n=n, labels=sorted(found), latest=latest[0])
            want = states[done]
            R.checks += 1
            if how == "power loss":
                judge_power(R, states[:done + 2], found, latest, n)
                R.check("ck.h5" not in img or latest[0] is not None or not (done or base_state), "unreadable",
                        lambda: f"power loss before disk operation {n}: the file cannot be loaded: {latest[1]}")
            elif "ck.h5" in img:
                if inside and all(l in found and found[l].same(s) for l, s in states[done + 1].items()):
                    want = states[done + 1]         # the write in progress is complete already
                for label, snap in want.items():
                    R.check(label in found, "lost-checkpoint",
                            lambda: f"{how} before disk operation {n} of round {k}: checkpoint {label}, completed before, cannot be loaded")
                    R.check(found[label].same(snap), "wrong-checkpoint", lambda: describe(label, found[label], snap))
                for label, snap in found.items():
                    R.check(any(snap.same(h) for h in history.get(label, [])), "invented-checkpoint",
                            lambda: f"{how} before disk operation {n}: checkpoint {label} holds what no iteration produced")
                allowed = []
                if done:
                    allowed.append(wins[done - 1][0])
                elif base_state:
                    allowed.append(plan_last(base_state, image))
                if inside:
                    allowed.append(wins[done][0])
                if want or latest[0] is not None:
                    R.check(latest[0] in allowed, "wrong-latest",
                            lambda: f"{how} before disk operation {n}: the latest checkpoint is {latest}, should be one of {allowed}")
                    R.check(any(latest[1].same(h) for h in history[latest[0]]), "invented-checkpoint",
                            lambda: f"the latest checkpoint holds what no iteration produced")
            next_image = (img, found, latest)
        img, found, latest = next_image
        image = img
        if "ck.h5" in image and latest[0] is None:
            # an empty or label-less file: only legal before anything completed
            image = {p: d for p, d in image.items() if p != "ck.h5"}
        writes.append(Latest(found, latest[0]))


class Latest(dict):
    def __init__(self, d, latest):
        super().__init__(d)
        self.latest = latest


def plan_last(state, image):
    return getattr(state, "latest", None)


def pick_point(c, wins, n_ops):
    """Index of the disk operation before which the crash happens."""
    if not n_ops:
        return 0
    if c["where"] == "any" or not wins:
        return frac(c["at"], n_ops + 1)
    i = frac(c["at"], len(wins))
    _, lo, hi, _ = wins[i]
    r = c["at"] * len(wins) - i
    if c["where"] == "edge":
        return [lo, min(lo + 1, hi), max(hi - 1, lo), hi][frac(r, 4)]
    return lo + frac(r, hi - lo + 1)


def crash(c, image, ops, n):
    torn = None
    if c["kind"] == "kill":
        if c["torn"] is not None and n < len(ops) and ops[n].op == "W":
            torn = frac(c["torn"], len(ops[n].p1) + 1)
        return image_after(image, ops, n, torn=torn), "kill with a torn write" if torn else "kill"
    import random
    g = random.Random(c["lose_seed"])
    mode = c["lose"]

    def lose(i, op):
        if mode == "none":
            return None
        if mode == "all":
            return 0
        if mode == "tail":
            return None if i < n * 0.8 else 0
        r = g.random()
        if r < 0.5:
            return None
        size = len(op.p1) if op.op == "W" else 1
        return 0 if r < 0.8 else int(g.random() * size)
    # directory changes survive in order up to a cut
    names = n if c["names_all"] else int(c["names"] * (n + 1))
    return image_after(image, ops, n, lose=lose, names_upto=names), "power loss"


def judge_power(R, states, found, latest, n):
    """After a power loss the file is what one completed write left."""
    for i, s in enumerate(states):
        if set(found) == set(s) and all(found[l].same(s[l]) for l in s):
            return
    R.violate("mixture", f"power loss before disk operation {n}: the file holds checkpoints {sorted(found)} "
                         f"(latest: {latest[0] if latest else None}), which no completed write left; "
                         f"writes left {[sorted(s) for s in states]}")
