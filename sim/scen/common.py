"""Pieces shared by the scenarios."""
import os

import h5py
import numpy as np

from sim.core import InvalidPlan, Violation
from sim.seams import SimBudget, disk, in_child, kernels, sut_frame
from sim.world import (LOGGERS, Data, SimLogger, attach, fit, gen_world, make, make_loggers, measures, quiet, same_model, snapshot,
                       start, validate)

REAL = ["tenkit (all of the library code the run reaches, unmodified)", "numpy", "scipy", "h5py/HDF5",
        "the kernel's file system below the scratch directory"]
STUB_NONE = ["the random source is the real numpy generator, seeded from the plan"]
STUB_DISK = STUB_NONE + ["disk: libc calls pass through a shim that numbers, faults and journals them; "
                         "fsync is recorded instead of executed; crash images are rebuilt from the journal"]


def pick_loggers(rng, most=3):
    names = sorted(LOGGERS)
    rng.shuffle(names)
    return names[:rng.randint(0, most)]


def frac(f, n):
    """Pick one of n by a number in [0, 1)."""
    return min(int(f * n), n - 1)


def seed(n):
    np.random.seed(n % 2 ** 32)


def trajectory(data_spec, spec, np_seed, keep_kernel=False, **over):
    """The bare, fault-free run of a world: (snapshots by iteration, returned model, losses)."""
    return in_child(_trajectory, data_spec, {**spec, **over}, np_seed)


def _trajectory(data_spec, spec, np_seed):
    seed(np_seed)
    data = Data(data_spec)
    log = SimLogger(read=True)
    dec = make(spec, loggers=[log])
    with quiet(), kernels.on():
        start(dec, data, spec)
    return dict(its=log.its, snaps=[r["snap"] for r in log.rows], loss=[r["measures"]["loss"] for r in log.rows],
                kernel=[r["kernel"] for r in log.rows], final=snapshot(dec), current=int(dec.current_iteration))


def load_labels(data, spec, path, upto):
    """What the public loading interface finds in a file: ({label: Snap}, latest label, latest Snap)."""
    found = {}
    dec = make(spec, init="random")
    with quiet():
        attach(dec, data)
        for it in range(upto):
            try:
                dec.load_checkpoint(path, it)
            except Exception:
                continue
            found[it] = snapshot(dec)
        latest = None
        try:
            dec.load_checkpoint(path)
            latest = (int(dec.current_iteration) - 1, snapshot(dec))
        except Exception as e:
            latest = (None, f"{type(e).__name__}: {e}"[:200])
    return found, latest


def stored_log(path):
    """{logger class name: (iterations, values)} as stored in a checkpoint file."""
    out = {}
    with h5py.File(path, "r") as h5:
        for cls, _ in LOGGERS.values():
            if cls.__name__ in h5:
                g = h5[cls.__name__]
                out[cls.__name__] = ([int(i) for i in g["iterations"][...]], [float(v) for v in g["values"][...]])
    return out


def memory_log(loggers):
    return {type(l).__name__: ([int(i) for i in l.log_iterations], [float(v) for v in l.log_metrics]) for l in loggers}


def expected_labels(its, freq, ended=True):
    """Labels the schedule demands for a sequence of completed iterations."""
    want = [i for i in its if freq is not None and freq > 0 and (i + 1) % freq == 0]
    if ended and its and its[-1] not in want:
        want.append(its[-1])
    return want


def describe(label, a, b):
    return f"checkpoint {label} differs from what iteration {label} produced (by {a.distance(b):.3g}, relative)"


def workdir(R, name):
    p = os.path.join(R.dir, name)
    os.makedirs(p, exist_ok=True)
    return p


def bad_exception(e):
    """Is this an exception only a broken program raises on a legal operation?"""
    return not isinstance(e, (Violation, InvalidPlan, SimBudget))


def refuse_degenerate(spec, snaps):
    """Components that died leave constrained factors undetermined: such worlds are out of scope."""
    if any(spec.get("orth") or []) :
        for s in snaps:
            for m, fm in enumerate(s.f):
                if spec["orth"][m] and np.max(np.abs(fm.T @ fm - np.eye(fm.shape[1]))) > 1e-6:
                    raise InvalidPlan("degenerate")


def collapsed(snap):
    """Did a component vanish?  (Normalisation is not meaningful for it.)"""
    return any(np.min(np.sqrt((f ** 2).sum(0))) < 1e-5 for f in snap.f + snap.V)


def dwindled(snap):
    """Is a component on its way to underflow?  (A penalty on the tensor's factors but not on the coupled
    one has no minimum: the one shrinks and the other grows for ever.)"""
    size = np.abs(snap.w)
    for f in snap.f:
        size = size * np.sqrt((f ** 2).sum(0))
    return bool(np.any((size < 1e-100) & (size > 0)))
