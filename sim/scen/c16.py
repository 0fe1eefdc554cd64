"""C16: fitting never modifies the data it is given."""
from sim.scen.history import *
from sim.world import sizes
from tenkit.decomposition import cmtf, cp, parafac2

ID = "C16"
WIDE = True
LEVEL = "fault_enumeration"
RUNS = {"quick": 3000, "thorough": 150000}
RULE = ("one evaluation is one history of operations with interruptions and failing disks; all bits of the data and the content of all "
        "lists the caller passed are compared after every iteration and operation, and bystander decomposers are compared with ones "
        "from a process in which nothing else happened")
MEASURE = "distinct (model kind, operation, previous operation, failure, kernel hit, midway, data, constraints, start)"
STUB = STUB_DISK
ASSUMES = ["a starting point passed in is handed over to the decomposer, which updates it in place, by design"]
SETTINGS = {"nonneg": "non_negativity_constraints", "ridge": "ridge_penalties", "orth": "orthonormality_constraints"}


def gen(rng):
    p = gen_history(rng, constraints=0.6, tols=(-1, -1, 1e-2), most=6)
    p["readonly"] = rng.random() < 0.3
    p["bare"] = rng.random() < 0.4          # no constraint, penalty or logger argument at all
    if p["bare"]:
        for k in SETTINGS:
            p["model"][k] = None
    p["clash"] = None
    if not p["bare"] and rng.random() < 0.1 and len({n_modes(d) for d in p["datas"]}) == 1:
        p["clash"] = rng.randrange(n_modes(p["data"]))      # constraints that cannot be combined
    if rng.random() < 0.1:
        scale = 10.0 ** rng.choice([-140, -101, -60, 60, 101, 120])
        for d in p["datas"]:
            d["scale"] *= scale
        if p["model"]["ridge"] is not None:
            p["model"]["ridge"] = [r * scale ** 2 for r in p["model"]["ridge"]]
        if rng.random() < 0.6 and p["model"]["rank"] <= min(x for d in p["datas"] for i, x in enumerate(sizes(d)) if not (d["kind"] == "pf2" and i == 1)):
            p["model"]["init"] = "svd"
        p["extreme"] = True
    for op in p["ops"]:
        if rng.random() < 0.12:
            op["meddle"] = rng.random()
    bdata, bmodel = gen_world(rng, kinds=(p["model"]["kind"],), constraints=0.3)
    p["bystander"] = dict(data=bdata, model={**bmodel, "tol": -1}, n=rng.randint(1, 3), bare=rng.random() < 0.6)
    if p["bystander"]["bare"]:
        for k in SETTINGS:
            p["bystander"]["model"][k] = None
    return p


def create(spec, lists, path=None):
    """A decomposer that is given the caller's own lists (or none)."""
    kw = dict(max_its=spec["max_its"], convergence_tol=spec["tol"], init=spec.get("start_path") or spec["init"], checkpoint_frequency=spec.get("freq"),
              checkpoint_path=path, print_frequency=spec.get("print", -1), **lists)
    if spec["kind"] == "pf2":
        return parafac2.Parafac2_ALS(spec["rank"], cp_updates_per_it=spec.get("inner", 5), **kw)
    cls = cmtf.CMTF_ALS if spec["kind"] == "cmtf" else cp.CP_ALS
    return cls(spec["rank"], rel_loss_tol=spec["rel_tol"], **kw)


class Untouched(History):
    refuse = False

    def __init__(self, plan, R):
        self.lists = {SETTINGS[k]: list(plan["model"][k]) for k in SETTINGS if plan["model"][k] is not None}
        m = plan["clash"]
        if m is not None:
            n = n_modes(plan["data"])
            if m >= n or {n_modes(d) for d in plan["datas"]} != {n}:
                raise InvalidPlan("clash")
            for k in ("nonneg", "orth"):
                self.lists[SETTINGS[k]] = [bool(x) or i == m for i, x in enumerate(plan["model"][k] or [False] * n)]
        if m is not None or plan.get("extreme"):
            self.tolerate = ("ValueError", "LinAlgError")
        super().__init__(plan, R)
        if plan["readonly"]:
            for d in self.datas:
                for a in d.arrays():
                    a.flags.writeable = False

    def new(self):
        if "loggers" not in self.lists:
            self.lists["loggers"] = make_loggers(self.plan["loggers"]) + [self.obs]
            self.keep()
        return create(self.spec, self.lists, self.path)

    def keep(self):
        self.copies = {k: list(v) for k, v in self.lists.items()}

    def same_lists(self, when):
        for k, v in self.lists.items():
            c = self.copies[k]
            self.R.check(len(v) == len(c) and all(a is b or (type(a) is type(b) and k != "loggers" and a == b) for a, b in zip(v, c)), "settings",
                         lambda: f"{when} the list passed as {k} is {v}, it was {c}")

    def untouched(self, when):
        for d in self.datas:
            bad = d.altered()
            self.R.check(bad is None, "data", lambda: f"{when}: {bad}")
        self.same_lists(when)

    def on_iter(self, dec, row, prev):
        self.untouched(f"at iteration {int(row['it'])}")

    def before(self, op):
        if op.get("meddle") is not None:
            self.bystander(op["meddle"])

    def after(self, op, out):
        self.untouched(f"after {out['kind']} ({out['err']})")

    def bystander(self, at):
        """The caller changes what one decomposer has (its own lists); another one must not notice."""
        R, b = self.R, self.plan["bystander"]
        spy = SimLogger()
        mine = create(b["model"], {SETTINGS[k]: list(b["model"][k]) for k in SETTINGS if b["model"][k] is not None})
        mine.loggers.append(spy)
        for k, name in SETTINGS.items():
            v = getattr(mine, name, None)
            if isinstance(v, list):
                v[0] = (not v[0]) if k != "ridge" else v[0] + 5.0
        got = neighbour(b, self.plan["np_seed"])
        R.probe("bystanders")
        want = PRISTINE["snap"]
        R.check(got.same(want), "leak", lambda: f"changing the lists of one decomposer changed what another one does (by {got.distance(want):.3g}, relative)")
        R.check(not spy.rows, "leak", "a logger attached to one decomposer logs another one")


def neighbour(b, np_seed):
    state = np.random.get_state()
    seed(np_seed + 7)
    m = b["model"]
    dec = create(m, {SETTINGS[k]: list(m[k]) for k in SETTINGS if m[k] is not None})
    with quiet(), kernels.off():
        start(dec, Data(b["data"]), m, max_its=b["n"])
    np.random.set_state(state)
    return snapshot(dec)


PRISTINE = {}



def run(plan, R):
    validate(plan["bystander"]["data"], plan["bystander"]["model"])
    if plan["bystander"]["n"] < 1:
        raise InvalidPlan("bystander")
    if any(op.get("meddle") is not None for op in plan["ops"]):
        PRISTINE["snap"] = in_child(neighbour, plan["bystander"], plan["np_seed"])
    Untouched(plan, R).run()
