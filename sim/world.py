"""Simulated clients' data, models, observations, and independent reference computations."""
import contextlib
import io
import os
import string

import numpy as np

from sim.core import InvalidPlan, hash_arrays
from sim.seams import SimBudget, disk, kernels, real_lstsq, real_nnls, real_qr, real_svd

import tenkit
from tenkit.decomposition import cmtf, cp, decompositions, parafac2
from tenkit.decomposition.logging import logger as loggers_mod

LOGGERS = {
    "loss": (loggers_mod.LossLogger, "loss"),
    "mse": (loggers_mod.MSELogger, "MSE"),
    "sse": (loggers_mod.SSELogger, "SSE"),
    "rmse": (loggers_mod.RMSELogger, "RMSE"),
    "ev": (loggers_mod.ExplainedVarianceLogger, "explained_variance"),
}


class NormLogger(loggers_mod.BaseLogger):
    """A user-written logger: the norm of the first factor matrix."""

    def _log(self, decomposer):
        self.log_metrics.append(float(np.sqrt((decomposer.decomposition.factor_matrices[0] ** 2).sum())))


LOGGERS["norm"] = (NormLogger, None)


# ------------------------------------------------------------------- data
def _layout(X, order, nprng):
    if order == "C":
        return np.ascontiguousarray(X)
    if order == "F":
        return np.asfortranarray(X)
    if order == "strided":
        big = np.zeros(tuple(2 * s for s in X.shape))
        big[...] = nprng.standard_normal(big.shape)
        view = big[tuple(slice(None, None, 2) for _ in X.shape)]
        view[...] = X
        return view
    if order == "moved":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(X, 0, -1)), -1, 0)
    raise InvalidPlan(order)


def kruskal(factors, weights=None):
    n = len(factors)
    letters = string.ascii_lowercase[:n]
    args, sub = list(factors), [l + "z" for l in letters]
    if weights is not None:
        args.append(np.asarray(weights, float)); sub.append("z")
    return np.einsum(",".join(sub) + "->" + letters, *args)


class Data:
    """What the user passes in: kept together with pristine copies."""

    def __init__(self, spec):
        self.spec = spec
        g = np.random.Generator(np.random.PCG64(spec["seed"]))
        kind, rank, noise, scale = spec["kind"], spec["rank"], spec["noise"], spec["scale"]
        draw = (lambda *s: g.uniform(0.1, 1, s)) if spec.get("positive") else (lambda *s: g.standard_normal(s))
        self.kind, self.start_file = kind, None
        self.Ys, self.modes = None, None

        def noisy(T):
            if noise:
                E = g.standard_normal(T.shape)
                T = T + noise * np.sqrt((T ** 2).sum() / (E ** 2).sum()) * E
            return scale * T
        weak = spec.get("weak") or 1.0          # strength of the last component
        if not 0 < weak <= 1:
            raise InvalidPlan("weak")
        noise *= weak
        if kind in ("cp", "cmtf"):
            shape = spec["shape"]
            if min(shape) < 1 or rank < 1 or len(shape) < 2:
                raise InvalidPlan("shape")
            f = [draw(s, rank) for s in shape]
            f[0][:, -1] *= weak
            self.X = _layout(noisy(kruskal(f)), spec["order"], g)
            if kind == "cmtf":
                self.Ys, self.modes = [], []
                for c in spec["coupled"]:
                    V = draw(c["cols"], rank)
                    self.Ys.append(_layout(noisy(f[c["mode"]] @ V.T), c.get("order", "C"), g))
                    self.modes.append(c["mode"])
                if len(set(self.modes)) != len(self.modes) or not self.modes:
                    raise InvalidPlan("coupling")
        else:
            I, K, J = spec["I"], spec["K"], spec["J"]
            Js = J if isinstance(J, list) else [J] * K
            if len(Js) != K or min(Js) < rank or I < rank or K < 1:
                raise InvalidPlan("parafac2 sizes")
            A, C, B = draw(I, rank), g.uniform(0.2, 1.2, (K, rank)), draw(rank, rank) + 1.5 * np.eye(rank)
            C[:, -1] *= weak
            slices = []
            for k in range(K):
                P = np.linalg.qr(g.standard_normal((Js[k], rank)))[0]
                slices.append(noisy((A * C[k]) @ (P @ B).T))
            if isinstance(J, list):
                self.X = [_layout(s, spec["order"] if spec["order"] != "moved" else "F", g) for s in slices]
            else:
                self.X = _layout(np.stack(slices, axis=-1), spec["order"], g)
        if spec.get("tweak"):
            self._tweak(spec["tweak"])
        self.copies = [a.copy() for a in self.arrays()]
        self.containers = [list(x) for x in self._lists()]

    def _tweak(self, how):
        """Almost, or in some respect, the same data."""
        for a in self.arrays():
            if how == "entry":
                a[(-1,) * a.ndim] *= 1.5
            elif how == "last":
                a[..., -1] *= 1.25
            elif how == "reverse":                  # same norm, same sum
                a[...] = a[::-1].copy()
            elif how == "second":                   # only one of several arrays or slices
                if a is self.arrays()[-1]:
                    a[...] = a[..., ::-1].copy()
            else:
                raise InvalidPlan(how)

    def refill(self, seed):
        """The caller puts other numbers into the same arrays."""
        new = Data({**self.spec, "seed": seed})
        for a, b in zip(self.arrays(), new.arrays()):
            a[...] = b
        self.spec, self.copies = new.spec, new.copies

    def arrays(self):
        out = list(self.X) if isinstance(self.X, list) else [self.X]
        return out + list(self.Ys or [])

    def _lists(self):
        return [x for x in (self.X, self.Ys, self.modes) if isinstance(x, list)]

    @property
    def slices(self):
        if isinstance(self.X, list):
            return self.X
        return [self.X[:, :, k] for k in range(self.X.shape[2])]

    def altered(self):
        """Describe any change to what the caller passed in, or None."""
        for i, (a, c) in enumerate(zip(self.arrays(), self.copies)):
            if a.shape != c.shape or a.tobytes() != c.tobytes():
                return f"data array {i} changed (max difference {np.max(np.abs(a - c)) if a.shape == c.shape else 'shape'})"
        for x, c in zip(self._lists(), self.containers):
            if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                return "a list passed in changed"
        return None

    @property
    def norm2(self):
        """Squared norm of everything that is fitted."""
        return sum(float((a ** 2).sum()) for a in self.arrays())

    @property
    def tensor_norm2(self):
        return sum(float((a ** 2).sum()) for a in (self.X if isinstance(self.X, list) else [self.X]))

    @property
    def size(self):
        return sum(a.size for a in self.arrays())


# ----------------------------------------------------------------- models
def make(spec, path=None, loggers=None, **over):
    """A decomposer as a user would create it."""
    s = {**spec, **over}
    kw = dict(max_its=s["max_its"], convergence_tol=s["tol"], init=s.get("start_path") or s["init"], loggers=loggers,
              checkpoint_frequency=s.get("freq"), checkpoint_path=path, print_frequency=s.get("print", -1),
              non_negativity_constraints=_cp(s.get("nonneg")), ridge_penalties=_cp(s.get("ridge")),
              orthonormality_constraints=_cp(s.get("orth")))
    if s["kind"] == "pf2":
        cls, kw["cp_updates_per_it"] = parafac2.Parafac2_ALS, s.get("inner", 5)
    else:
        cls, kw["rel_loss_tol"] = cmtf.CMTF_ALS if s["kind"] == "cmtf" else cp.CP_ALS, s["rel_tol"]
    if s["rank"] % 2:                    # not given where it is the documented default
        kw = {k: v for k, v in kw.items() if v is not None and (k, v) not in (("init", "random"), ("cp_updates_per_it", 5))}
    for name in s.get("omit", ()):
        kw.pop(name, None)
    return cls(s["rank"], **kw)


def _cp(x):
    return None if x is None else list(x)


def fit(dec, data, method="fit", **kw):
    if data.kind == "cmtf":
        return getattr(dec, method)(data.X, data.Ys, data.modes, **kw)
    return getattr(dec, method)(data.X, **kw)


def precomputed(data, spec):
    """A starting point a user made; CP ones carry weights."""
    g = np.random.Generator(np.random.PCG64(spec["pre_seed"]))
    n, R = n_modes(data.spec), spec["rank"]
    f = [g.uniform(0.1, 1, (s, R)) if spec["nonneg"] else g.standard_normal((s, R)) for s in sizes(data.spec)]
    if data.kind == "pf2":
        f[1] = g.standard_normal((R, R)) + np.eye(R)
    near = spec.get("near")             # the last component is nearly the same as the first
    if near is not None:
        if not 1e-8 < near <= 1:
            raise InvalidPlan("near")
        for x in f:
            x[:, -1] = x[:, 0] + near * x[:, -1] if R > 1 else x[:, 0]
    if data.kind == "pf2":
        P = [np.linalg.qr(g.standard_normal((x.shape[1], R)))[0] for x in data.slices]
        return decompositions.Parafac2Tensor(*f, P)
    return decompositions.KruskalTensor(f, g.uniform(0.5, 2, R))


def start(dec, data, spec, method="fit", **kw):
    if spec["init"] == "precomputed":
        kw["initial_decomposition"] = precomputed(data, spec)
    elif spec["init"] == "from_checkpoint":
        kw["initial_decomposition"] = data.start_file
    return fit(dec, data, method, **kw)


def attach(dec, data):
    """Give a decomposer its data without fitting."""
    if data.kind == "cmtf":
        dec.set_coupled_matrices(data.Ys, data.modes)
    dec.set_target(data.X)


# ----------------------------------------------------------- observations
class Snap:
    """The numbers of a model: factor matrices, weights, projections, uncoupled factors."""

    def __init__(self, f, w, P, V):
        self.f, self.w, self.P, self.V = f, w, P, V

    def arrays(self):
        return self.f + [self.w] + self.P + self.V

    def same(self, o, tol=None):
        a, b = self.arrays(), o.arrays()
        if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
            return False
        if all(x.tobytes() == y.tobytes() for x, y in zip(a, b)):
            return True
        if tol is None:
            return False
        return self.distance(o) <= tol

    def distance(self, o):
        """Largest difference relative to the size of the array it is in."""
        a, b = self.arrays(), o.arrays()
        if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
            return float("inf")
        d = 0.0
        for x, y in zip(a, b):
            if x.size:
                m = np.max(np.abs(x - y))
                if np.isnan(m):
                    if not np.array_equal(np.isnan(x), np.isnan(y)):
                        return float("inf")
                    m = np.nanmax(np.abs(x - y)) if not np.all(np.isnan(x - y)) else 0.0
                d = max(d, float(m) / max(float(np.max(np.abs(x))) if np.all(np.isfinite(x)) else 1.0, 1e-300))
        return d

    @property
    def hash(self):
        return hash_arrays(self.arrays())

    @property
    def shapes(self):
        return [a.shape for a in self.arrays()]


def snap_tensor(t, V=()):
    if isinstance(t, decompositions.Parafac2Tensor):
        return Snap([np.array(t.A), np.array(t.blueprint_B), np.array(t.C)], np.ones(t.A.shape[1]),
                    [np.array(p) for p in t.projection_matrices], [])
    if isinstance(t, decompositions.EvolvingTensor):
        return Snap([np.array(t.A), *[np.array(b) for b in t.B], np.array(t.C)], np.ones(t.A.shape[1]), [], [])
    return Snap([np.array(f) for f in t.factor_matrices], np.array(t.weights), [], [np.array(v) for v in V])


def snapshot(dec):
    return snap_tensor(dec.decomposition, getattr(dec, "uncoupled_factor_matrices", None) or ())


def represented(data, s):
    """Everything the model says about the data, as arrays."""
    if data.kind == "pf2":
        return [(s.f[0] * s.f[2][k]) @ (s.P[k] @ s.f[1]).T for k in range(len(s.P))]
    out = [kruskal(s.f, s.w)]
    if data.kind == "cmtf":
        out += [s.f[m] @ v.T for m, v in zip(data.modes, s.V)]
    return out


def targets(data):
    return data.slices if data.kind == "pf2" else [data.X] + list(data.Ys or [])


def same_model(data, a, b, tol):
    """Do two snapshots represent the same thing?  Returns the relative distance."""
    scale = np.sqrt(data.norm2) + 1e-300
    return max(float(np.sqrt(((x - y) ** 2).sum())) / scale for x, y in zip(represented(data, a), represented(data, b))) <= tol


def ref_sse(data, s):
    return sum(float(((t - r) ** 2).sum()) for t, r in zip(targets(data), represented(data, s)))


def ref_loss(spec, data, s):
    L = ref_sse(data, s)
    if spec.get("ridge") is not None:
        L += sum(r * float((f ** 2).sum()) for r, f in zip(spec["ridge"], s.f))
    return L


def ref_measures(spec, data, s):
    sse = ref_sse(data, s)
    mse = sse / data.size
    return {"SSE": sse, "MSE": mse, "RMSE": np.sqrt(mse), "loss": ref_loss(spec, data, s),
            "explained_variance": 1 - sse / data.tensor_norm2}


MEASURES = ("SSE", "MSE", "RMSE", "loss", "explained_variance")


def measures(dec):
    return {m: float(getattr(dec, m)) for m in MEASURES}


def measure_mismatch(got, ref, data):
    """None, or a description of the first measure that is not what it should be."""
    X2 = data.norm2
    tol = {
        "SSE": 1e-9 * X2 + 1e-7 * ref["SSE"],
        "loss": 1e-9 * X2 + 1e-7 * abs(ref["loss"]),
    }
    tol["MSE"] = tol["SSE"] / data.size
    tol["explained_variance"] = tol["SSE"] / data.tensor_norm2
    for m in MEASURES:
        g, r = got[m], ref[m]
        if not np.isfinite(g):
            return f"{m} is {g}, should be {r:.10g}"
        if m != "explained_variance" and g < 0:
            return f"{m} is negative ({g}), should be {r:.10g}"
        if m == "RMSE":
            bad = abs(g * g - ref["MSE"]) > tol["MSE"] + 1e-12 * ref["MSE"]
        else:
            bad = abs(g - r) > tol[m]
        if bad:
            return f"{m} is {g:.12g}, should be {r:.12g}"
    return None


class SimLogger:
    """The simulator's observer, attached through the public logger interface."""

    def __init__(self, rec=None, budget=400, read=False, keep=True):
        self.rec, self.budget, self.read, self.keep = rec, budget, read, keep
        self.rows = []
        self.on_log = None

    def log(self, dec):
        if len(self.rows) >= self.budget:
            raise SimBudget(f"more than {self.budget} iterations")
        with kernels.off():
            row = {"it": dec.current_iteration, "snap": snapshot(dec) if self.keep else None, "clock": disk.clock,
                   "rclock": disk.read_clock, "kernel": kernels.calls}
            if self.read:
                row["measures"] = measures(dec)
        self.rows.append(row)
        if self.rec is not None:
            self.rec.event("iteration", it=int(row["it"]), snap=row["snap"].hash if row["snap"] else None)
            self.rec.step("iterations", 1)
        if self.on_log is not None:
            self.on_log(dec, row)

    def write_to_hdf5_group(self, h5group):
        pass

    @property
    def its(self):
        return [int(r["it"]) for r in self.rows]


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        yield out


def make_loggers(names):
    return [LOGGERS[n][0]() for n in names]


# ------------------------------------------------- reference iteration
def khatri_rao(fs):
    out = fs[0]
    for f in fs[1:]:
        out = np.einsum("ir,jr->ijr", out, f).reshape(-1, f.shape[1])
    return out


def _unfold(X, m):
    return np.moveaxis(X, m, 0).reshape(X.shape[m], -1)


class IllConditioned(Exception):
    pass


class Limits:
    """When is a least squares problem (condition number) or a polar factor (ratio of singular values) determined?"""
    cond, polar, scaled = 1e5, 1e-6, False


TINY = 1e-60       # smaller cross products mean that a component vanished


def _solve_rows(K, B, nonneg, orth, ridge):
    """argmin_U ||B - U K^T||^2 + ridge ||U||^2 under the constraint, from the full design."""
    R = K.shape[1]
    sv = real_svd(K, compute_uv=False)
    if ridge:
        if sv[-1] <= 1e-5 * np.sqrt(ridge) and not Limits.scaled:     # rounding of the penalty exceeds the data
            raise IllConditioned
        K = np.concatenate([K, np.sqrt(ridge) * np.eye(R)])
        B = np.concatenate([B, np.zeros((B.shape[0], R))], axis=1)
        sv = real_svd(K, compute_uv=False)
    if orth:
        u, s, v = real_svd(B @ K, full_matrices=False)
        if not Limits.scaled and (s[-1] <= max(Limits.polar * s[0], TINY) or B.shape[0] < R):
            raise IllConditioned
        return u @ v
    norms = np.sqrt((K ** 2).sum(0))
    norms[norms == 0] = 1
    scaled = K / norms                   # (the scale of a component does not make it any harder to determine)
    if Limits.scaled:                    # exactly singular is fine
        sv = real_svd(scaled, compute_uv=False)
        if np.any((sv > 1e-12 * sv[0]) & (sv <= sv[0] / Limits.cond)):
            raise IllConditioned
    elif len(K) < R or sv[-1] <= sv[0] / Limits.cond:
        raise IllConditioned
    if nonneg:
        return np.array([real_nnls(scaled, b)[0] for b in B]) / norms
    return real_lstsq(scaled, B.T, rcond=1e-12)[0].T / norms


def _opt(spec, name, mode):
    v = spec.get(name)
    return None if v is None else v[mode]


def _cp_sweep(spec, X, f, extra=None):
    """One sweep over the modes; extra(mode) gives additional (design, data) blocks."""
    for m in range(X.ndim):
        K = khatri_rao([f[i] for i in range(X.ndim) if i != m])
        B = _unfold(X, m)
        if extra is not None and extra(m) is not None:
            k2, b2 = extra(m)
            K, B = np.concatenate([K, k2]), np.concatenate([B, b2], axis=1)
        f[m] = _solve_rows(K, B, _opt(spec, "nonneg", m), _opt(spec, "orth", m), _opt(spec, "ridge", m))


def ref_iteration(spec, data, s):
    """The model after one exact iteration from s (independent of the code under test)."""
    f = [a.copy() for a in s.f]
    if data.kind == "pf2":
        P = []
        for k, Xk in enumerate(data.slices):
            # X_k ~ (A D_k B^T) P_k^T
            u, sv, v = real_svd(Xk.T @ ((f[0] * s.f[2][k]) @ f[1].T), full_matrices=False)
            if sv[-1] <= max(Limits.polar * sv[0], TINY) and not Limits.scaled:
                raise IllConditioned
            P.append(u @ v)
        T = np.stack([Xk @ p for Xk, p in zip(data.slices, P)], axis=-1)
        for _ in range(spec.get("inner", 5)):
            _cp_sweep(spec, T, f)
        return Snap(f, np.ones(f[0].shape[1]), P, [])
    V = [v.copy() for v in s.V]
    w = np.where(s.w == 0, 1, s.w)
    wm = [bool(o) for o in spec["orth"]].index(False) if spec.get("orth") is not None else 0
    if data.kind == "cmtf":
        by_mode = {m: i for i, m in enumerate(data.modes)}
        # weights belong to the tensor; move them to a mode that can be scaled, whose coupled matrix keeps its model
        f[wm] = f[wm] * s.w
        if wm in by_mode:
            V[by_mode[wm]] = V[by_mode[wm]] / w
        _cp_sweep(spec, data.X, f, lambda m: (V[by_mode[m]], data.Ys[by_mode[m]]) if m in by_mode else None)
        for m, i in by_mode.items():
            V[i] = _solve_rows(f[m], data.Ys[i].T, _opt(spec, "nonneg", m), None, None)
    else:
        f[wm] = f[wm] * s.w
        _cp_sweep(spec, data.X, f)
    return Snap(f, np.ones(f[0].shape[1]), [], V)


def well_determined(spec, data, s, cond=1e5, polar=1e-6, scaled=False):
    """Is every factor of the iteration from s determined by the data (up to rounding)?"""
    before = Limits.cond, Limits.polar, Limits.scaled
    Limits.cond, Limits.polar, Limits.scaled = cond, polar, scaled
    try:
        ref_iteration(spec, data, s)
        return True
    except IllConditioned:
        return False
    finally:
        Limits.cond, Limits.polar, Limits.scaled = before


def vanishing(data, s):
    """Did a component of the model become negligible?"""
    size = np.abs(s.w)
    for f in s.f:
        size = size * np.sqrt((f ** 2).sum(0))
    return bool(np.min(size) < 1e-6 * np.sqrt(data.norm2))


def constraint_violation(spec, s, ortho_tol=1e-7):
    for m, fm in enumerate(s.f):
        if not np.all(np.isfinite(fm)):
            return f"factor {m} has entries that are not finite"
        if _opt(spec, "nonneg", m) and fm.min() < 0:
            return f"factor {m} has a negative entry ({fm.min():.3g})"
        if _opt(spec, "orth", m):
            e = np.max(np.abs(fm.T @ fm - np.eye(fm.shape[1])))
            if e > ortho_tol:
                return f"factor {m} is not orthonormal (off by {e:.3g})"
    if s.P:
        cross = None
        for k, p in enumerate(s.P):
            e = np.max(np.abs(p.T @ p - np.eye(p.shape[1])))
            if e > ortho_tol:
                return f"projection {k} is not orthonormal (off by {e:.3g})"
            b = p @ s.f[1]
            c = b.T @ b
            if cross is None:
                cross = c
            elif np.max(np.abs(c - cross)) > ortho_tol * max(1.0, np.max(np.abs(cross))):
                return f"evolving factor {k} has another cross product than the first"
    return None


# -------------------------------------------------------------- generation
def gen_data(rng, kind, rank=None, noise=None, positive=False, big=False):
    rank = rank or rng.choice([1, 2, 2, 2, 3])
    noise = rng.choice([0.1, 0.3, 0.3, 0.6]) if noise is None else noise
    d = dict(kind=kind, rank=rank, seed=rng.randrange(2 ** 31), noise=noise,
             scale=rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3]), order=rng.choice(["C", "C", "F", "strided", "moved"]),
             positive=positive)
    if kind in ("cp", "cmtf"):
        ndim = rng.choice([3, 3, 3, 4, 2] if kind == "cmtf" else [3, 3, 3, 3, 4, 4, 2, 5])
        hi = {2: 8, 3: 7, 4: 5, 5: 4}[ndim]
        d["shape"] = [rng.randint(max(3, rank + 1) if ndim < 5 else rank + (rank < 2), max(hi, rank + 1)) for _ in range(ndim)]
        if kind == "cmtf":
            modes = list(range(ndim))
            rng.shuffle(modes)
            n = rng.choice([1, 1, 1, 2]) if ndim > 2 else 1
            d["coupled"] = [dict(mode=m, cols=rng.randint(rank + 1, 7), order=rng.choice(["C", "F"])) for m in modes[:n]]
    else:
        d["I"], d["K"] = rng.randint(rank + 2, 8), rng.randint(3, 5)
        if rng.random() < 0.6:
            d["J"] = [rng.randint(rank + 1, 8) for _ in range(d["K"])]
        else:
            d["J"] = rng.randint(rank + 1, 8)
    return d


def n_modes(data):
    return 3 if data["kind"] == "pf2" else len(data["shape"])


def sizes(data):
    if data["kind"] == "pf2":
        return [data["I"], data["rank"], data["K"]]
    return data["shape"]


def gen_model(rng, data, constraints=0.5, inits=None, max_its=None, tol=-1, rank=None):
    """A model spec for data; data must be positive if non-negativity is to be meaningful."""
    n, kind = n_modes(data), data["kind"]
    m = dict(kind=kind, rank=rank or data["rank"], tol=tol, max_its=max_its or rng.randint(4, 12), nonneg=None,
             orth=None, ridge=None)
    if kind == "pf2":
        m["inner"] = rng.choice([1, 2, 5])
    else:
        m["rel_tol"] = -1
    if rng.random() < constraints:
        what = rng.choice(["nonneg", "nonneg", "orth", "ridge", "ridge", "nonneg+ridge", "orth+ridge", "nonneg+orth"])
        if "nonneg" in what:
            m["nonneg"] = [rng.random() < 0.6 for _ in range(n)]
        if "orth" in what:
            c = [i for i in range(n) if sizes(data)[i] > m["rank"] and not (kind == "pf2" and i == 1)
                 and not (m["nonneg"] and m["nonneg"][i])]
            if c:
                pick = rng.choice(c)
                m["orth"] = [i == pick for i in range(n)]
        if "ridge" in what:
            m["ridge"] = [rng.choice([0.0, 0.01, 0.1]) * data["scale"] ** 2 for _ in range(n)]
    if inits is None:
        inits = ["random", "random", "random", "svd", "precomputed"] + (["cp"] if kind == "pf2" else [])
    m["init"] = rng.choice(inits)
    m["pre_seed"] = rng.randrange(2 ** 31)
    if m["init"] == "cp" and isinstance(data.get("J"), list):
        m["init"] = "random"
    if m["init"] == "svd" and m["rank"] > min(sizes(data)[i] for i in range(n) if not (kind == "pf2" and i == 1)):
        m["init"] = "random"
    return m


def gen_world(rng, kinds=("cp", "cp", "pf2", "cmtf"), constraints=0.5, **kw):
    kind = rng.choice(list(kinds))
    noise = kw.pop("noise", None)
    data = gen_data(rng, kind, noise=noise)
    model = gen_model(rng, data, constraints=constraints, **kw)
    if model["nonneg"] and any(model["nonneg"]):
        data["positive"] = True
    return data, model


def validate(data, model):
    """Preconditions that minimisation must not destroy."""
    n = n_modes(data)
    if model["rank"] < 1 or model["kind"] != data["kind"] or model["rank"] > data["rank"] + 1:
        raise InvalidPlan("rank")
    for k in ("nonneg", "orth", "ridge"):
        if model.get(k) is not None and len(model[k]) != n:
            raise InvalidPlan(k)
    if model.get("nonneg") and any(model["nonneg"]) and not data["positive"]:
        raise InvalidPlan("data must be positive")
    if model.get("orth"):
        for i in range(n):
            if model["orth"][i] and (sizes(data)[i] < model["rank"] or (data["kind"] == "pf2" and i == 1)
                                     or (model.get("nonneg") and model["nonneg"][i])):
                raise InvalidPlan("orth")
        if all(model["orth"]):
            raise InvalidPlan("all orthonormal")
    if data["scale"] <= 0 or data["noise"] < 0 or model["rank"] > min(sizes(data)):
        raise InvalidPlan("sizes")
    if data["kind"] == "pf2" and model["init"] == "cp" and isinstance(data["J"], list):
        raise InvalidPlan("cp init needs a tensor")
    if data["kind"] == "pf2" and model.get("inner", 5) < 1:
        raise InvalidPlan("inner")
    if data["kind"] == "cmtf" and any(c["cols"] < model["rank"] for c in data["coupled"]):
        raise InvalidPlan("coupled")
    if model.get("freq") == 0 or model.get("print") == 0:
        raise InvalidPlan("frequency")
