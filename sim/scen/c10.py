"""C10: concurrent fits do not influence each other."""
import copy

from sim import sched
from sim.core import hash_arrays
from sim.scen.history import EXC, EXPECTED, UserStop
from sim.scen.common import *
from sim.world import precomputed, snap_tensor
from tenkit import base, log as L, metrics, utils
from tenkit.decomposition import decompositions as D

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 60000}
RULE = ("one evaluation is two to four clients in threads of one process (fits with continuations, loads, failures and stops; stores and "
        "comparisons of decompositions; metric logs; the numeric functions) whose statements are interleaved by a scheduler that the plan "
        "controls, at every line or at every bytecode of the library; models, measures, logs, printed text, returned values and the content of "
        "all files are compared bit for bit with those of each client alone, in a process of its own")
MEASURE = "distinct (client kinds, granularity, line at which another client was scheduled)"
STUB = STUB_NONE + ["threads: a seeded scheduler runs one at a time; the global random state is exchanged at every switch; locks the library makes are simulated"]
ASSUMES = ["every client has its own stream of random numbers (numpy's global one cannot be divided between threads)",
           "code outside the library (numpy, h5py) runs without switches", "numpy and LAPACK give the same bits for the same input in every process"]


def gen_client(rng, world=None):
    kind = rng.choice(["fit"] * 7 + ["tensors", "metrics", "base"])
    c = dict(kind=kind, seed=rng.randrange(2 ** 31), file=rng.random() < 0.75, steps=[])
    if kind in ("fit", "tensors", "base"):
        c["data"], c["model"] = copy.deepcopy(world) if world else gen_world(rng)
        c["model"]["freq"] = rng.choice([1, 1, 2, None])
        c["model"]["print"] = rng.choice([-1, -1, 1])
        c["model"]["tol"] = rng.choice([-1, -1, -1, 1e-2])
    if kind == "fit":
        c["loggers"] = pick_loggers(rng, 3)
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            c["steps"].append(dict(op=rng.choice(["fit"] * 4 + ["interrupt"]) if not i else rng.choice(["continue", "continue", "fit", "interrupt", "stop", "load", "store", "nostore", "nostore"]),
                                   n=rng.randint(1, 4), at=rng.random(), span=rng.choice([10, 40]), exc=rng.choice(EXC)))
    else:
        c["steps"] = [dict(op=rng.random(), n=rng.randint(1, 5), at=rng.random()) for _ in range(rng.randint(2, 5))]
        c["targets"], c["freq"] = rng.randint(1, 3), rng.randint(1, 3)
    return c


def gen(rng):
    n = rng.choice([2, 2, 2, 3, 4])
    world = gen_world(rng) if rng.random() < 0.5 else None
    clients = [gen_client(rng, world) for _ in range(n)]
    pace = rng.choice([1, 2, 5, 20, 60, 200, 600])
    schedule = [[max(1, int(rng.expovariate(1 / pace)) if pace > 2 else rng.randint(1, pace)), rng.random()] for _ in range(rng.choice([2, 5, 20, 100]))]
    opcodes = pace > 2 and rng.random() < 0.35
    if opcodes:
        schedule = [[k * 4, p] for k, p in schedule]
    return dict(clients=clients, schedule=schedule, opcodes=opcodes, cycle=rng.random() < 0.85, share=rng.random() < 0.5)


def run_client(c, k, folder, data):
    """What one client does; returns everything it can see."""
    np.random.seed(c["seed"])
    with np.errstate(all="ignore"):
        return {"fit": run_fit, "tensors": run_tensors, "metrics": run_metrics, "base": run_base}[c["kind"]](c, k, folder, data)


def run_fit(c, k, folder, data):
    spec, out, seen = c["model"], [], SimLogger(budget=100, read=True)
    path = os.path.join(folder, f"ck{k}.h5") if c["file"] else None
    logs, stop_at = make_loggers(c["loggers"]), [None]
    dec = make(spec, path=path, loggers=logs + [seen])

    def on_log(dec, row):
        if isinstance(stop_at[0], int) and len(seen.rows) >= stop_at[0]:
            stop_at[0] = None
            raise UserStop
    seen.on_log = on_log

    def on_write(h5):
        if stop_at[0] == "write":
            raise UserStop
    seen.write_to_hdf5_group = on_write
    has = False
    for s in c["steps"]:
        op, n0, err = s["op"], len(seen.rows), None
        if not has and op in ("continue", "stop", "load", "store", "nostore"):
            continue
        kernels.plan = {}
        if op == "interrupt":
            kernels.plan = {kernels.calls + 1 + frac(s["at"], s["span"]): s["exc"]}
        stop_at[0] = n0 + 1 + frac(s["at"], s["n"]) if op == "stop" else None
        try:
            if op == "fit" or op == "interrupt" and not has:
                has = False
                start(dec, data, spec, max_its=s["n"])
                has = True
            elif op == "load" and path and os.path.exists(path):
                dec.load_checkpoint(path)
            elif op == "store" and path:
                dec.store_checkpoint()
            elif op == "nostore" and path:          # storing fails, in the library or in a user's logger
                if s["at"] < 0.5:
                    dec.checkpoint_path = os.path.join(folder, "gone", "ck.h5")
                else:
                    stop_at[0] = "write"
                dec.store_checkpoint()
            else:
                dec.continue_fit(max_its=int(dec.current_iteration) + s["n"])
        except BaseException as e:
            if type(e).__name__ not in EXPECTED | {"UserStop", "FileNotFoundError"}:
                raise
            err = type(e).__name__
            has = has or len(seen.rows) > n0
        stop_at[0] = None
        dec.checkpoint_path = path
        kernels.plan = {}
        out.append((op, err, int(getattr(dec, "current_iteration", -1)), snapshot(dec).arrays() if has else None, measures(dec) if has else None))
    return out, [(r["it"], r["snap"].arrays(), r["measures"]) for r in seen.rows], memory_log(logs)


def run_tensors(c, k, folder, data):
    spec, path, out = c["model"], os.path.join(folder, f"tensor{k}.h5"), []
    for i, s in enumerate(c["steps"]):
        t = precomputed(data, {**spec, "pre_seed": c["seed"] + i})
        u = precomputed(data, {**spec, "pre_seed": c["seed"] + i + 1})
        t.store(path)
        back = type(t).from_file(path)
        out.append(snap_tensor(back).arrays())
        out.append(t.construct_slices() if data.kind == "pf2" else t.construct_tensor())
        if data.kind != "pf2":
            out.append(t.factor_match_score(u))
            back.normalize_components()
            out.append(snap_tensor(back).arrays())
            out.append(utils.normalize_factors(t.factor_matrices))
    return out


def run_metrics(c, k, folder, data):
    path = os.path.join(folder, f"log{k}.h5")
    lg = L.HDF5Logger(path, "ex", c["freq"], (), **{f"m{j}": (lambda x, j=j: x * (j + 1.5)) for j in range(c["targets"])})
    t = 0
    for s in c["steps"]:
        for _ in range(s["n"]):
            lg.log(float(t))
            t += 1
        if s["op"] < 0.3:
            lg.save_logs()
    lg.save_logs()
    return lg.target_values


def run_base(c, k, folder, data):
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    out = []
    for s in c["steps"]:
        R = c["model"]["rank"]
        shape = [int(g.integers(1, 6)) for _ in range(3 if s["op"] < 0.7 else 4)]
        f = [g.standard_normal((n, R)) for n in shape]
        X = g.standard_normal(shape)
        m = frac(s["at"], len(shape))
        out += [base.khatri_rao(*f), base.khatri_rao(*f, skip=m), base.kron(*f), base.matrix_khatri_rao_product(X, f, m),
                base.unfold(X, m), base.fold(base.unfold(X, m), m, shape), base.flatten_factors(f), base.unflatten_factors(base.flatten_factors(f), R, shape)]
        A, B = g.standard_normal((R, R + 3)), g.standard_normal((4, R + 3))
        for solve in (base.rightsolve, base.non_negative_rightsolve, base.orthogonal_rightsolve, base.add_rightsolve_ridge(base.rightsolve, 0.3)):
            out.append(solve(A, B))
        out.append(metrics.factor_match_score(f, [x + 0.1 * g.standard_normal(x.shape) for x in f]))
    return out


def content(folder, k):
    """Everything in the files of client k."""
    out = {}
    for name in sorted(os.listdir(folder)):
        if name.startswith((f"ck{k}.", f"tensor{k}.", f"log{k}.")):
            found = {}
            if not name.endswith(".h5"):
                out[name] = "a leftover file"
                continue
            with h5py.File(os.path.join(folder, name), "r") as h5:
                def visit(n, o):
                    found[n] = ({a: np.asarray(v).tolist() for a, v in o.attrs.items()}, (o.dtype.str, o.shape, o[...].tobytes()) if isinstance(o, h5py.Dataset) else None)
                visit("/", h5)
                h5.visititems(visit)
            out[name] = found
    return out


def alone(plan, k, folder):
    c = plan["clients"][k]
    data = Data(c["data"]) if "data" in c else None
    with quiet() as text, kernels.on():
        kernels.reset()
        res = run_client(c, k, folder, data)
    return flat(res), text.getvalue(), content(folder, k)


def together(plan, folder):
    shared, fns = {}, []
    for k, c in enumerate(plan["clients"]):
        data = None
        if "data" in c:
            key = repr(sorted(c["data"].items()))
            data = shared[key] if plan["share"] and key in shared else Data(c["data"])
            shared[key] = data
        fns.append(lambda c=c, k=k, data=data: flat(run_client(c, k, folder, data)))
    s = sched.Scheduler(fns, plan["schedule"], plan["opcodes"], plan["cycle"])
    res = s.run()
    if s.deadlock:
        return None, s.switches, s.points, sorted(s.where), None
    return ([(r, "".join(c.out), content(folder, k))
             for k, (r, c) in enumerate(zip(res, s.clients))], s.switches, s.points, sorted(s.where), [d.altered() for d in shared.values()])


def flat(x, name=""):
    """[(where, type or bytes)] of everything in a nested result."""
    if isinstance(x, dict):
        return [y for k in x for y in flat(x[k], f"{name}.{k}")]
    if isinstance(x, (list, tuple)):
        return [(name, f"{len(x)} items")] + [y for i, v in enumerate(x) for y in flat(v, f"{name}[{i}]")]
    if isinstance(x, np.ndarray):
        return [(name, x.shape, x.dtype.str, np.ascontiguousarray(x).tobytes())]
    if isinstance(x, np.generic):
        return [(name, repr(x))]
    return [(name, repr(x))]


def run(plan, R):
    clients = plan["clients"]
    if len(clients) < 2 or not plan["schedule"]:
        raise InvalidPlan("clients")
    for c in clients:
        if not c["steps"] or any(s["n"] < 1 for s in c["steps"]):
            raise InvalidPlan("steps")
        if "data" in c:
            validate(c["data"], c["model"])
    solo = [in_child(alone, plan, k, workdir(R, f"solo{k}")) for k in range(len(clients))]
    both, switches, points, where, altered = in_child(together, plan, workdir(R, "disk"))
    R.step("statements" if not plan["opcodes"] else "bytecodes", points)
    R.step("switches", switches)
    for w in where:
        R.state(*sorted(c["kind"] for c in clients), plan["opcodes"], *w)
    R.check(both is not None, "deadlock", "the clients wait for each other")
    for k, (c, a, b) in enumerate(zip(clients, solo, both)):
        for s in c["steps"]:
            if s["op"] in ("interrupt", "stop", "nostore"):
                R.fault(s["op"])
        R.event("client", k=k, what=c["kind"], switches=switches, digest=hash_arrays([np.frombuffer(repr(a).encode(), np.uint8)]))
        what = f"client {k} ({c['kind']}{', ' + c['data']['kind'] if 'data' in c else ''})"
        R.check(len(a[0]) == len(b[0]) and all(x[0] == y[0] for x, y in zip(a[0], b[0])), "course", f"{what} takes another course when others run")
        for x, y in zip(a[0], b[0]):
            R.check(x == y, "result", lambda: f"{what} gets another result when others run, at {x[0]}: {short(x)}, alone {short(y)}")
        R.check(a[1] == b[1], "printed", f"{what} prints other text when others run")
        R.check(a[2] == b[2], "files", lambda: f"{what} leaves other files when others run: {diff(a[2], b[2])}")
    for x in altered:
        R.check(x is None, "data", f"the shared data: {x}")


def short(x):
    if len(x) == 4:
        v = np.frombuffer(x[3], x[2])
        return f"{x[1]} {v[:3].tolist()}.."
    return x[1]


def diff(a, b):
    if sorted(a) != sorted(b):
        return f"{sorted(b)}, alone {sorted(a)}"
    for n in a:
        if isinstance(a[n], str) or isinstance(b[n], str):
            continue
        for k in sorted(set(a[n]) | set(b[n])):
            if a[n].get(k) != b[n].get(k):
                return f"{n}: {k}"
    return "content"
