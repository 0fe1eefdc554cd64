"""C12: stored decompositions read back exactly or fail loudly."""
import shutil

from sim.core import hash_arrays
from sim.scen.common import *
from sim.seams import ChildDied, image_after, read_tree, write_tree
from tenkit.decomposition import decompositions as D

ID = "C12"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 100000}
RULE = ("one evaluation is one history of stores and loads of decompositions of all kinds over one file, with disk errors, quotas, short "
        "transfers, interrupts and read errors at planned operations, loads as the wrong kind and of truncated files, and crash images cut "
        "in every store; whatever a load returns is compared bit for bit with what was stored")
MEASURE = "distinct (kind, operation, fault, was there an older file, value pattern, layout, cut operation)"
STUB = STUB_DISK
ASSUMES = ["a store that raises leaves the older content or the complete new one; a process kill keeps what the kernel was given"]
KINDS = {"kruskal": D.KruskalTensor, "evolving": D.EvolvingTensor, "parafac2": D.Parafac2Tensor}
PATTERNS = ("normal", "normal", "huge", "tiny", "special", "zeros", "float32", "int", "negzero")


def gen_obj(rng):
    kind = rng.choice(list(KINDS))
    o = dict(kind=kind, rank=rng.randint(1, 4), seed=rng.randrange(2 ** 31), pattern=rng.choice(PATTERNS),
             layout=rng.choice(["C", "C", "F", "strided", "moved"]), warning=rng.random() < 0.6, weights=rng.random() < 0.7)
    if kind == "kruskal":
        o["shape"] = [rng.randint(1, 7) for _ in range(rng.choice([1, 2, 3, 3, 4, 5]))]
        if rng.random() < 0.03:
            o["shape"] = [2] * rng.randint(8, 14)
    else:
        n = rng.randint(1, 5) if rng.random() < 0.95 else rng.randint(9, 130)
        if rng.random() < 0.012:
            n = rng.randint(1001, 1100)
        o["I"], o["J"] = rng.randint(1, 6), [rng.randint(4, 8) for _ in range(n)]
        if rng.random() < 0.4:
            o["J"] = [o["J"][0]] * n
        o["array"] = rng.random() < 0.4            # B as one array
    return o


def gen(rng):
    objs = [gen_obj(rng) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.4:                          # the same sizes, other values
        objs[1] = {**objs[0], "seed": rng.randrange(2 ** 31), "pattern": rng.choice([objs[0]["pattern"]] * 3 + list(PATTERNS))}
    ops = []
    for i in range(rng.randint(2, 6)):
        r = rng.random()
        op = dict(op="store" if i == 0 else rng.choice(["store", "store", "store", "load", "load", "wrong", "trunc", "group", "cut"]),
                  obj=rng.randrange(len(objs)), at=rng.random(), kind=rng.choice(list(KINDS)))
        if op["op"] == "store" and rng.random() < 0.5:
            op["fault"] = dict(kind=rng.choice(["error", "error", "short", "sigint", "quota", "stuck"]), at=rng.random(),
                               err=rng.choice(["ENOSPC", "EIO", "EDQUOT", "EINTR"]), ops=rng.choice(["WTSR", "WTSRO", "O", "W", "S", "R"]))
        if op["op"] == "load" and rng.random() < 0.6:
            op["fault"] = dict(kind=rng.choice(["error", "error", "stuck", "short"]), at=rng.random(), err=rng.choice(["EIO", "EINTR"]), ops="or")
        if op.get("fault", {}).get("kind") == "stuck" and op["fault"]["err"] == "EINTR":
            op["fault"]["err"] = "EIO"             # everybody retries EINTR, for ever
        ops.append(op)
    return dict(objs=objs, ops=ops, cuts=[[rng.random(), rng.random()] for _ in range(3)])


def build(o):
    g = np.random.Generator(np.random.PCG64(o["seed"]))

    def arr(*shape):
        x = g.standard_normal(shape)
        p = o["pattern"]
        if p == "huge":
            x = x * 1e305
        elif p == "tiny":
            x = x * 5e-320
        elif p == "zeros":
            x = x * 0
        elif p == "negzero":
            x = np.where(x < 0, -0.0, x)
        elif p == "float32":
            x = x.astype(np.float32)
        elif p == "int":
            x = np.round(x * 5).astype(np.int64)
        elif p == "special":
            for _ in range(2):
                x.flat[int(g.integers(x.size))] = [np.nan, np.inf, -np.inf][int(g.integers(3))]
        if o["layout"] == "F":
            return np.asfortranarray(x)
        if o["layout"] == "strided":
            big = np.zeros(tuple(2 * s for s in shape), x.dtype)
            view = big[tuple(slice(None, None, 2) for _ in shape)]
            view[...] = x
            return view
        if o["layout"] == "moved" and x.ndim > 1:
            return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0)
        return x
    r = o["rank"]
    if r < 1:
        raise InvalidPlan("rank")
    if o["kind"] == "kruskal":
        if not o["shape"] or min(o["shape"]) < 1:
            raise InvalidPlan("shape")
        return D.KruskalTensor([arr(s, r) for s in o["shape"]], arr(r) if o["weights"] else None)
    I, J = o["I"], o["J"]
    if I < 1 or not J or min(J) < 1:
        raise InvalidPlan("sizes")
    if o["kind"] == "evolving":
        B = arr(len(J), J[0], r) if o["array"] and len(set(J)) == 1 else [arr(j, r) for j in J]
        return D.EvolvingTensor(arr(I, r), B, arr(len(J), r), warning=o["warning"])
    return D.Parafac2Tensor(arr(I, r), arr(r, r), arr(len(J), r), [arr(j, r) for j in J], warning=o["warning"])


def parts(t):
    """Everything a decomposition consists of, comparable."""
    if isinstance(t, D.Parafac2Tensor):
        arrays = [t.A, t.blueprint_B, t.C, *t.projection_matrices]
    elif isinstance(t, D.EvolvingTensor):
        arrays = [t.A, t.C, *list(t.B)]
    else:
        arrays = [*t.factor_matrices, t.weights]
    extra = () if isinstance(t, D.KruskalTensor) else (bool(t.warning), bool(t.all_same_size), [tuple(map(int, s)) for s in t.slice_shapes])
    return dict(kind=type(t).__name__, rank=int(t.rank), shape=[int(s) for s in t.shape], extra=extra,
                arrays=[(a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes()) for a in arrays])


def difference(a, b):
    for k in ("kind", "rank", "shape", "extra"):
        if a[k] != b[k]:
            return f"{k} {b[k]} instead of {a[k]}"
    if len(a["arrays"]) != len(b["arrays"]):
        return f"{len(b['arrays'])} arrays instead of {len(a['arrays'])}"
    for i, (x, y) in enumerate(zip(a["arrays"], b["arrays"])):
        if x[:2] != y[:2]:
            return f"array {i} is {y[:2]} instead of {x[:2]}"
        if x[2] != y[2]:
            return f"the values of array {i} differ"
    return None


def load(path, kind, fault=None):
    """Load in a process of its own: ('ok', parts) or ('raised', exception)."""
    disk.start(os.path.dirname(path))
    if fault:
        n = disk.read_clock + 1 + frac(fault["at"], 12)
        disk.rule("short" if fault["kind"] == "short" else "error", fault["ops"], n, -1 if fault["kind"] == "stuck" else 1, err=fault["err"])
    try:
        with quiet():
            out = ("ok", parts(KINDS[kind].from_file(path)))
    except BaseException as e:
        out = ("raised", type(e).__name__)
    return out, disk.clear()


def load_images(folder, images, kinds):
    out = []
    path = os.path.join(folder, "x.h5")
    for img in images:
        write_tree(folder, img)
        res = {}
        for kind in kinds:
            try:
                with quiet():
                    res[kind] = ("ok", parts(KINDS[kind].from_file(path)))
            except BaseException as e:
                res[kind] = ("raised", type(e).__name__)
        out.append(res)
    return out


def run(plan, R):
    if not plan["ops"] or plan["ops"][0]["op"] != "store" or any(o["obj"] >= len(plan["objs"]) for o in plan["ops"]):
        raise InvalidPlan("ops")
    objs = [build(o) for o in plan["objs"]]
    truth = [parts(t) for t in objs]
    folder = workdir(R, "disk")
    path = os.path.join(folder, "x.h5")
    disk.start(folder)
    held = None                                     # index of what the file holds

    def judge(res, kind, want, what, may_fail=False):
        how, got = res
        if how == "raised":
            R.check(may_fail, "unreadable", f"{what} raised {got}")
            return
        bad = "no decomposition was stored" if want is None else difference(truth[want], got)
        R.check(bad is None, "altered", lambda: f"{what} gives something else than was stored: {bad}")

    for i, op in enumerate(plan["ops"]):
        kind, o = op["op"], plan["objs"][op["obj"]]
        f = op.get("fault")
        R.step("operations", 1)
        if f and f["kind"] == "stuck" and f["err"] == "EINTR":
            raise InvalidPlan("endless EINTR")
        if kind == "store":
            before = held
            lo = len(disk.journal())
            if f:
                n = disk.clock + 1 + frac(f["at"], 6)
                if f["kind"] == "quota":
                    disk.quota(frac(f["at"], 9000))
                elif f["kind"] in ("error", "stuck"):
                    disk.rule("error", f["ops"], n, -1 if f["kind"] == "stuck" else 1, err=f["err"])
                else:
                    disk.rule(f["kind"], f["ops"], n, 1)
            err = None
            try:
                with quiet():
                    objs[op["obj"]].store(path)
            except (OSError, KeyboardInterrupt) as e:
                if not f:
                    raise
                err = type(e).__name__
            hits = disk.hits()
            if f and f["kind"] == "quota" and disk.quota_hits():
                hits["quota"] = disk.quota_hits()
            disk.clear()
            for k, v in hits.items():
                R.fault(k, v)
            R.check(err is None or hits, "spurious", f"the store raised {err} without a fault")
            R.check(difference(truth[op["obj"]], parts(objs[op["obj"]])) is None, "object", "storing changed the decomposition in memory")
            R.state(o["kind"], "store", f and f["kind"], err, before is not None, o["pattern"], o["layout"], *hits)
            if err is None:
                held = op["obj"]
                judge(in_child(load, path, o["kind"])[0], o["kind"], held, f"loading after a store ({hits or 'no fault'})")
            elif not os.path.exists(path):
                R.check(before is None, "lost", f"the store failed with {err} and the older file is gone")
            else:
                same = [x for x in {before, op["obj"]} if x is not None]
                seen = [x for x in same if matches(in_child(load, path, plan["objs"][x]["kind"])[0], truth[x])]
                R.check(seen, "damaged", f"after a store that failed with {err} the file holds neither the old nor the new decomposition")
                held = before if before in seen else seen[0]
            ops = disk.journal()
            R.step("disk operations", len(ops) - lo)
            images, where = [], []
            for at, torn in plan["cuts"]:
                n = lo + frac(at, len(ops) - lo + 1)
                t = None
                writes = [j for j in range(lo, len(ops)) if ops[j].op == "W"]
                if torn < 0.3 and writes:           # in the middle of one of the writes
                    n = writes[frac(at, len(writes))]
                if n < len(ops) and ops[n].op == "W" and torn < 0.6:
                    t = frac(torn / 0.6, len(ops[n].p1) + 1)
                images.append(image_after({}, ops, n, torn=t))
                where.append((n, ops[n].op if n < len(ops) else "end"))
            legal = [x for x in {before, op["obj"]} if x is not None]
            results = in_child(load_images, workdir(R, "image"), images, sorted({plan["objs"][x]["kind"] for x in legal}))
            for (n, what), img, res in zip(where, images, results):
                R.fault("crash")
                R.state(o["kind"], "crash", before is not None, what, err)
                text = f"crash before disk operation {n} of a store"
                R.check("x.h5" in img or before is None, "lost", f"{text}: the file is gone")
                if "x.h5" not in img:
                    continue
                good = [x for x in legal if matches(res[plan["objs"][x]["kind"]], truth[x])]
                R.check(good, "damaged", lambda: f"{text}: the file holds neither the old nor the new decomposition: "
                                                 f"{ {k: v[0] if v[0] == 'ok' else v for k, v in res.items()} }")
                for k, v in res.items():
                    R.check(v[0] == "raised" or any(difference(truth[x], v[1]) is None for x in legal), "altered", f"{text}: a load gives what was never stored")
            R.event("store", obj=op["obj"], err=err, held=held, hits=hits)
        elif held is None:
            continue
        elif kind == "load":
            res, hits = in_child(load, path, plan["objs"][held]["kind"], f)
            for k, v in hits.items():
                R.fault(k, v)
            serious = any("short" not in k for k in hits)
            judge(res, None, held, f"loading ({hits or 'no fault'})", may_fail=serious)
            R.state(plan["objs"][held]["kind"], "load", f and f["kind"], res[0], *hits)
            R.event("load", res=res[0], hits=hits)
        elif kind == "wrong":
            if op["kind"] == plan["objs"][held]["kind"]:
                continue
            res, _ = in_child(load, path, op["kind"])
            R.check(res[0] == "raised", "wrong-kind", lambda: f"a {plan['objs'][held]['kind']} decomposition was loaded as {op['kind']}")
            R.state(plan["objs"][held]["kind"], "wrong", op["kind"], res[1])
        elif kind == "trunc":
            other = os.path.join(workdir(R, "image"), "t.h5")
            with open(path, "rb") as h:
                b = h.read()
            with open(other, "wb") as h:
                h.write(b[:frac(op["at"], len(b))])
            res, _ = in_child(load, other, plan["objs"][held]["kind"])
            R.check(res[0] == "raised" or difference(truth[held], res[1]) is None, "truncated", lambda: f"a file cut at {frac(op['at'], len(b))} of {len(b)} bytes gives altered data")
            R.fault("truncated file")
        elif kind in ("group", "cut"):
            groups(plan, R, objs, truth, op)


def matches(res, want):
    return res[0] == "ok" and difference(want, res[1]) is None


def groups(plan, R, objs, truth, op):
    """Several decompositions in the groups of a file of the user's."""
    name = os.path.join(workdir(R, "group"), "g.h5")
    with h5py.File(name, "w") as h5:
        for i, t in enumerate(objs):
            t.store_in_hdf5_group(h5.create_group(f"run{i}"))
        h5["run0"].attrs["mine"] = 3
    with h5py.File(name, "r") as h5:
        for i, t in enumerate(objs):
            bad = difference(truth[i], parts(type(t).load_from_hdf5_group(h5[f"run{i}"])))
            R.check(bad is None, "altered", lambda: f"group {i} of {len(objs)} holds something else than was stored: {bad}")
            for k, cls in KINDS.items():
                if cls is not type(t):
                    try:
                        cls.load_from_hdf5_group(h5[f"run{i}"])
                    except Exception:
                        continue
                    R.check(False, "wrong-kind", f"a {type(t).__name__} in a group was loaded as {k}")
    R.state("group", *[o["kind"] for o in plan["objs"]])
