"""C14: an unusable starting point is refused without side effects."""
import copy

from sim.core import hash_arrays
from sim.scen.common import *
from sim.seams import read_tree
from sim.world import n_modes, sizes
from tenkit.decomposition import decompositions as D

ID = "C14"
WIDE = True
LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 100000}
RULE = ("one evaluation is one life of a decomposer (fits, continuations, loads and resumed fits) into which loads and starts are thrown that "
        "cannot work: models of another rank, size, order, kind or slice count stored by real fits, missing labels, files without checkpoints, "
        "damaged, cut or missing files, and good files on a disk with read errors; the life is executed again without them, in a process of its "
        "own, and both must agree bit for bit")
MEASURE = "distinct (model kind, operation, what is wrong with it, outcome, was there a model, way of starting, exception, constraints)"
STUB = STUB_DISK
ASSUMES = ["numpy and LAPACK give the same bits for the same input in every process",
           "after a refused start (not a refused load) the decomposer needs a new start or a load before it can continue",
           "damage to a file that leaves a model of the right kind and sizes in it cannot be noticed"]
SHAPES = ["rank", "size", "size", "order", "permuted", "kind", "slices", "coupled", "part", "part", "part"]
FILES = ["label", "label", "empty", "garbage", "zero", "truncated", "missing", "directory", "hole", "read", "read", "read"]
DAMAGE = ("truncated", "hole", "read")           # may be loaded all the same, if it is loaded right


def gen(rng):
    data, model = gen_world(rng, kinds=("cp", "cp", "pf2", "pf2", "cmtf"))
    model["freq"] = rng.choice([1, 1, 2, 3, None])
    model["tol"] = rng.choice([-1, -1, -1, 1e-2])
    ops = [dict(op="fit", n=rng.randint(1, 5), at=rng.random(), bad=None, how=None, seed=rng.randrange(2 ** 31))]
    for _ in range(rng.randint(2, 7)):
        kind = rng.choice(["refused-load"] * 4 + ["refused-start"] * 2 + ["continue"] * 2 + ["load", "load", "fit", "new", "resume"])
        ops.append(dict(op=kind, n=rng.randint(1, 4), at=rng.random(), bad=rng.choice(SHAPES + FILES), seed=rng.randrange(2 ** 31),
                        how=rng.choice(["precomputed", "precomputed", "from_checkpoint", "path"])))
    return dict(data=data, model=model, ops=ops, loggers=pick_loggers(rng, 2))


def unsuitable(data, model, op):
    """(data, model) of the same family that the model does not fit, or None."""
    d, m = copy.deepcopy(data), {**copy.deepcopy(model), "nonneg": None, "orth": None, "ridge": None, "init": "random", "freq": None, "tol": -1}
    bad, i, pf2 = op["bad"], int(op["at"] * 1000), data["kind"] == "pf2"
    if bad == "part":
        return data, {**model, "freq": None, "init": "random"}
    d["seed"] = op["seed"]
    if bad == "rank":
        top = min(sizes(d)[k] for k in range(n_modes(d)) if not (pf2 and k == 1))
        if pf2:
            top = min([top] + (d["J"] if isinstance(d["J"], list) else [d["J"]]))
        r = m["rank"] + (1 if i % 2 else -1)
        if r < 1 or r > top or pf2 and d["rank"] > top:
            return None
        m["rank"] = r
        if pf2:
            d["rank"] = r
    elif bad == "size":
        step = 1 if i % 2 else -1
        if pf2:
            if i % 3 == 0:
                d["I"] += step
            elif isinstance(d["J"], list):
                d["J"][i % len(d["J"])] += step
            else:
                d["J"] += step
        else:
            k = i % len(d["shape"])
            d["shape"][k] += step
    elif bad == "order":
        if pf2:
            return None
        if i % 3 == 0 and len(d["shape"]) > 2 and (d["kind"] == "cp" or all(c["mode"] < len(d["shape"]) - 1 for c in d["coupled"])):
            d["shape"] = d["shape"][:-1]
        elif i % 3 == 1 and d["kind"] == "cp" and len(d["shape"]) > 2:
            d["shape"] = d["shape"][1:]
        else:
            d["shape"] = d["shape"] + [[1, 2, m["rank"] + 1][i % 3]]
    elif bad == "permuted":
        if pf2:
            if not isinstance(d["J"], list) or len(set(d["J"])) == 1:
                return None
            d["J"] = d["J"][1:] + d["J"][:1]
            if d["J"] == data["J"]:
                return None
        else:
            d["shape"] = d["shape"][1:] + d["shape"][:1]
            if d["shape"] == data["shape"]:
                return None
    elif bad == "slices":
        if not pf2:
            return None
        k = d["K"] + (1 if i % 2 else -1)
        if k < 2:
            return None
        if isinstance(d["J"], list):
            d["J"] = (d["J"] + d["J"])[:k]
        d["K"] = k
    elif bad == "coupled":
        if d["kind"] != "cmtf":
            return None
        c = d["coupled"][i % len(d["coupled"])]
        c["cols"] += 1 if i % 2 else -1
    elif bad == "kind":
        if pf2:
            J = d["J"] if isinstance(d["J"], int) else d["J"][0]
            d = dict(kind="cp", rank=d["rank"], seed=op["seed"], noise=0.3, scale=1.0, order="C", positive=False, shape=[d["I"], J, d["K"]])
            m["kind"], m["rel_tol"] = "cp", -1
        else:
            s = (d["shape"] + [4, 4])[:3]
            d = dict(kind="pf2", rank=m["rank"], seed=op["seed"], noise=0.3, scale=1.0, order="C", positive=False, I=max(s[0], m["rank"]),
                     J=max(s[1], m["rank"]), K=s[2])
            m.update(kind="pf2", inner=1)
    if pf2 and d["kind"] == "pf2":
        Js = d["J"] if isinstance(d["J"], list) else [d["J"]]
        if min(Js) < d["rank"] or d["I"] < d["rank"]:
            return None
    if d["kind"] != "pf2" and min(d["shape"]) < 1:
        return None
    return d, m


def store_unsuitable(d, m, path, np_seed, part=None):
    """Fit another world and leave its checkpoint."""
    seed(np_seed)
    data = Data(d)
    dec = make(m, path=path)
    with quiet():
        fit(dec, data, max_its=0)
        if part is not None:
            try:
                dec.decomposition = one_part(data, m, part)
            except ValueError:                # not even a decomposition
                return
        dec.store_checkpoint()


def one_part(data, spec, op):
    """A model with one part of the wrong size."""
    t = precomputed(data, {**spec, "pre_seed": op["seed"], "nonneg": None})
    i = int(op["at"] * 10000)
    grow, wide = i % 2, i // 2 % 2

    def wrong(a):
        if not wide:
            return np.concatenate([a, a[:1]]) if grow or len(a) < 2 else a[:-1].copy()
        return np.concatenate([a, a[:, :1]], axis=1) if grow or a.shape[1] < 2 else a[:, :-1].copy()
    if data.kind != "pf2":
        m = i // 4 % len(t.factor_matrices)
        t.factor_matrices[m] = wrong(t.factor_matrices[m])
        return t
    what = ["A", "C", "C", "blueprint_B", "projection", "projections"][i // 4 % 6]
    P, parts = list(t.projection_matrices), dict(A=t.A, blueprint_B=t.blueprint_B, C=t.C)
    if what == "projection":
        k = i // 24 % len(P)
        P[k] = wrong(P[k])
    elif what == "projections":
        P = P + [P[0]] if grow else P[:-1]
    else:
        parts[what] = wrong(parts[what])
    return D.Parafac2Tensor(parts["A"], parts["blueprint_B"], parts["C"], P)


def evolving(data, rank):
    g = np.random.Generator(np.random.PCG64(5))
    s = data.X[0].shape + (len(data.X),) if isinstance(data.X, list) else (tuple(data.X.shape) + (3, 3))[:3]
    return D.EvolvingTensor(g.standard_normal((s[0], rank)), [g.standard_normal((s[1], rank)) for _ in range(s[2])], g.standard_normal((s[2], rank)))


def bad_tensor(op, data, spec, bad_file, folder):
    """A decomposition that is no start for this data."""
    bad = op["bad"]
    if bad == "part":
        try:
            return one_part(data, spec, op)
        except ValueError:                    # not even a decomposition
            return None
    if bad_file is not None:
        d, m = bad_file
        dec = make(m)
        seed(op["seed"])
        with quiet():
            fit(dec, Data(d), max_its=0)
        return dec.decomposition
    if bad in ("label", "empty", "zero", "garbage"):
        return [None, os.path.join(folder, "nothing.h5"), evolving(data, spec["rank"]), "start"][frac(op["at"], 4)]
    return None


def damaged(op, path, folder, i):
    """A file that holds no such checkpoint: (path, label)."""
    bad = op["bad"]
    p = os.path.join(folder, f"bad{i}.h5")
    if bad == "label":
        return path, [-1, 10 ** 5, 77, 12345678][frac(op["at"], 4)]
    if bad == "missing":
        return p, None
    if bad == "directory":
        os.makedirs(p, exist_ok=True)
        return p, None
    if bad == "read":
        return path, None
    if bad == "empty":
        with h5py.File(p, "w") as h5:
            if op["at"] < 0.6:
                h5.create_group("something").attrs["x"] = 1
        return p, None if op["at"] < 0.8 else 0
    with open(path, "rb") as h:
        content = h.read()
    if bad == "zero":
        content = b""
    elif bad == "garbage":
        content = np.random.Generator(np.random.PCG64(op["seed"])).bytes(len(content))
    elif bad == "truncated":
        content = content[:frac(op["at"], len(content))]
    with open(p, "wb") as h:
        h.write(content)
    if bad == "hole":
        with h5py.File(p, "a") as h5:
            group = f"checkpoint_{int(h5.attrs['final_iteration']):05d}"
            names = []
            h5[group].visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
            names = sorted(names)
            del h5[group][names[frac(op["at"], len(names))]]
    return p, None


def observe(dec, model):
    out = dict(it=int(dec.current_iteration) if hasattr(dec, "current_iteration") else None)
    if model:
        with quiet():
            out.update(snap=snapshot(dec), measures=measures(dec))
    out["logs"] = [memory_log([l]) for l in dec.loggers if type(l).__name__ != "SimLogger"]
    return out


def same_state(a, b):
    if a["it"] != b["it"]:
        return f"the iteration count changes from {a['it']} to {b['it']}"
    if "snap" in a:
        if not a["snap"].same(b["snap"]):
            return f"the model changes (by {a['snap'].distance(b['snap']):.3g}, relative)"
        for m in MEASURES:
            if a["measures"][m] != b["measures"][m] and not (a["measures"][m] != a["measures"][m] and b["measures"][m] != b["measures"][m]):
                return f"{m} changes from {a['measures'][m]!r} to {b['measures'][m]!r}"
    if a["logs"] != b["logs"]:
        return "the log changes"
    return None


MEASURES = ("SSE", "MSE", "RMSE", "loss", "explained_variance")


def play(plan, folder, side, took=None):
    """The life; with took, without what was refused (took[i]: the label that operation i loaded after all)."""
    spec, data = plan["model"], Data(plan["data"])
    path = os.path.join(folder, "ck.h5")
    dec = make(spec, path=path, loggers=make_loggers(plan["loggers"]) + [SimLogger(budget=200, keep=False)])
    twin = took is not None
    disk.start(folder)
    out, has = [], False
    for i, op in enumerate(plan["ops"]):
        kind = op["op"]
        rec = dict(op=kind, err=None, took=None, problem=None, has=has, hits={}, tried=False)
        there = os.path.exists(path)
        if kind == "new":
            dec = make(spec, path=path, loggers=make_loggers(plan["loggers"]) + [SimLogger(budget=200, keep=False)])
            attach(dec, data)
            has = False
        elif kind in ("refused-load", "refused-start") and not twin:
            rec.update(refused(plan, i, op, dec, data, folder, side, has, there))
            if kind == "refused-start" and rec["tried"]:
                has = False
            if rec["took"] is not None:
                has = True
        elif kind in ("refused-load", "refused-start"):
            if took[i][0]:
                has = has and kind == "refused-load"
            if took[i][1] is not None:
                if kind == "refused-start":
                    dec.init = "from_checkpoint"
                    with quiet():
                        fit(dec, data, initial_decomposition=path, max_its=0)
                    dec.init = spec["init"]
                else:
                    attach(dec, data)
                    dec.load_checkpoint(path)
                has = True
        with quiet():
            if kind == "fit":
                seed(op["seed"])
                start(dec, data, spec, max_its=op["n"])
                has = True
            elif kind == "continue" and has:
                dec.continue_fit(max_its=int(dec.current_iteration) + op["n"])
            elif kind == "load" and there:
                attach(dec, data)
                dec.load_checkpoint(path)
                has = True
            elif kind == "resume" and there:
                seed(op["seed"])
                dec.init = "from_checkpoint"
                probe = make(spec)
                attach(probe, data)
                probe.load_checkpoint(path)
                fit(dec, data, initial_decomposition=path, max_its=int(probe.current_iteration) + op["n"])
                dec.init = spec["init"]
                has = True
        rec["state"] = observe(dec, has)
        out.append(rec)
    disk.stop()
    return out


def refused(plan, i, op, dec, data, folder, side, has, there):
    spec, path = plan["model"], os.path.join(folder, "ck.h5")
    rec = dict(tried=False, err=None, problem=None)
    start_it = op["op"] == "refused-start"
    bad = None
    if op["bad"] in SHAPES:
        bad = unsuitable(plan["data"], spec, op)
        if bad is None:
            return rec
        target, label = os.path.join(side, f"bad{i}.h5"), None
    elif not there:
        return rec
    else:
        target, label = damaged(op, path, side, i)
    if start_it and op["how"] == "precomputed":
        tensor = bad_tensor(op, data, spec, bad, side)
        if tensor is None and op["bad"] not in ("label", "empty", "zero", "garbage"):
            return rec
        if op["bad"] == "coupled":
            return rec                        # only a checkpoint tells about coupled matrices
        before_arrays = [a.copy() for a in snap_of(tensor)]
    elif start_it and (op["bad"] == "label"):
        return rec
    if start_it and op["how"] == "path" and op["bad"] in ("missing", "directory"):
        pass                                  # an unknown way of initialisation
    good = None
    if op["bad"] in DAMAGE and not (start_it and op["how"] == "precomputed"):
        if op["bad"] == "hole" and data.kind == "cmtf":
            return rec
        good = in_child(peek, plan, path)
        refuse_degenerate(spec, [good["snap"]])        # a start orthonormalises what the constraint could not
    state = observe(dec, has)
    tree, files = read_tree(folder), read_tree(side)
    rec["tried"] = True
    if op["bad"] == "read":
        disk.rule("error", "or", disk.read_clock + 1 + frac(op["at"], 40), 1, err="EIO")
    try:
        with quiet():
            if not start_it:
                dec.load_checkpoint(target, *([] if label is None else [label]))
            elif op["how"] == "precomputed":
                dec.init = "precomputed"
                fit(dec, data, initial_decomposition=tensor, max_its=3)
            elif op["how"] == "from_checkpoint":
                dec.init = "from_checkpoint"
                fit(dec, data, initial_decomposition=target, max_its=0)
            else:
                dec.init = target
                fit(dec, data, max_its=0)
    except Exception as e:
        rec["err"] = type(e).__name__
    rec["hits"] = disk.clear()
    dec.init = spec["init"]
    what = f"{op['op']} of {op['bad']}" + (f" ({op['how']})" if start_it else "")
    if rec["err"] is None:
        if good is None:
            rec["problem"] = ("accepted", f"{what}: it is accepted")
            return rec
        now = observe(dec, True)
        rec["took"] = good["it"]
        # a started CMTF fit ends with a normalised model
        if not (now["snap"].same(good["snap"]) or start_it and same_model(data, now["snap"], good["snap"], 1e-9)) or now["it"] != good["it"]:
            rec["problem"] = ("wrong-model", f"{what}: it is accepted and gives another model or iteration ({now['it']}) than was stored ({good['it']})")
    else:
        if not start_it:
            p = same_state(state, observe(dec, has))
            if p:
                rec["problem"] = ("side-effect", f"{what}: the load is refused ({rec['err']}), but {p}")
        if data.altered():
            rec["problem"] = ("data", f"{what}: {data.altered()}")
    if start_it and op["how"] == "precomputed":
        for a, b in zip(snap_of(tensor), before_arrays):
            if a.shape != b.shape or a.tobytes() != b.tobytes():
                rec["problem"] = ("start-altered", f"{what}: the refused start is altered")
    if (rec["err"] is not None or good is not None) and (read_tree(folder), read_tree(side)) != (tree, files):
        if not start_it or rec["err"] is not None:
            rec["problem"] = rec["problem"] or ("files", f"{what}: files change")
    return rec


def snap_of(t):
    return snap_tensor(t).arrays() if isinstance(t, D.BaseDecomposedTensor) and not isinstance(t, D.EvolvingTensor) else []


from sim.world import snap_tensor, precomputed  # noqa: E402


def peek(plan, path):
    """What the latest checkpoint in the file is."""
    disk.stop()
    dec = make(plan["model"], init="random")
    data = Data(plan["data"])
    with quiet():
        attach(dec, data)
        dec.load_checkpoint(path)
    return dict(it=int(dec.current_iteration), snap=snapshot(dec))


def run(plan, R):
    spec, ops = plan["model"], plan["ops"]
    validate(plan["data"], spec)
    if not ops or ops[0]["op"] != "fit" or any(o["n"] < 1 for o in ops):
        raise InvalidPlan("ops")
    side = workdir(R, "side")
    for i, op in enumerate(ops):
        if op["op"] in ("refused-load", "refused-start") and op["bad"] in SHAPES:
            bad = unsuitable(plan["data"], spec, op)
            if bad is not None:
                in_child(store_unsuitable, *bad, os.path.join(side, f"bad{i}.h5"), op["seed"], op if op["bad"] == "part" else None)
    a = in_child(play, plan, workdir(R, "disk"), side)
    tried = 0
    for i, (op, rec) in enumerate(zip(ops, a)):
        for k, n in rec["hits"].items():
            R.fault(k, n)
        if rec["tried"]:
            tried += 1
            R.fault(f"unusable: {op['bad']}")
            R.step("unusable starting points", 1)
        R.state(spec["kind"], op["op"], op["bad"] if rec["tried"] else None, rec["took"] is not None, rec["has"], op["how"] if op["op"] == "refused-start" else None,
                rec["err"], *(spec[k] is not None for k in ("nonneg", "orth", "ridge")))
        s = rec["state"]
        R.event("op", op=op["op"], bad=op["bad"], tried=rec["tried"], err=rec["err"], took=rec["took"], it=s["it"], snap=s["snap"].hash if "snap" in s else None)
        R.check(rec["problem"] is None, *(rec["problem"] or ("", "")))
    if not tried:
        return
    took = [(r["tried"], r["took"]) for r in a]
    b = in_child(play, plan, workdir(R, "twin"), side, took)
    for i, (op, x, y) in enumerate(zip(ops, a, b)):
        if op["op"] in ("refused-load", "refused-start"):
            continue
        if "snap" not in x["state"] or "snap" not in y["state"]:
            continue
        p = same_state(y["state"], x["state"])
        R.check(p is None, "aftermath", lambda: f"operation {i + 1} ({op['op']}): compared with a life without the refused operations, {p}")
    da, db = (load_labels_of(plan, workdir(R, x), max(r["state"]["it"] or 0 for r in a) + 1) for x in ("disk", "twin"))
    R.check(da == db, "aftermath-files", lambda: f"the checkpoint file differs from that of a life without the refused operations: {da} and {db}")


def load_labels_of(plan, folder, upto):
    return in_child(_contents, plan, os.path.join(folder, "ck.h5"), upto)


def _contents(plan, path, upto):
    if not os.path.exists(path):
        return None
    found, latest = load_labels(Data(plan["data"]), plan["model"], path, upto)
    return {k: s.hash for k, s in found.items()}, latest[0], stored_log(path)
