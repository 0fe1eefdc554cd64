"""Run recorder and outcomes."""
import hashlib
import json
import re

import numpy as np


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg
        super().__init__(cls, msg)


class InvalidPlan(Exception):
    pass


def clean(msg):
    """Messages must not depend on where the scratch directory is."""
    return re.sub(r"0x[0-9a-f]{6,}", "0x..", re.sub(r"/(dev/shm|tmp)/tkverif-\d+/r\d+", "$DIR", msg))


class Recorder:
    """Collects the event log of one run.  Draws no randomness and reads no clock."""

    def __init__(self, keep_log=False):
        self._h = hashlib.sha256()
        self.keep = keep_log
        self.log = []
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.steps = {}
        self.states = set()
        self.checks = 0

    # everything below must be deterministic for one plan
    def event(self, kind, **data):
        line = json.dumps([kind, data], sort_keys=True, default=_plain)
        self._h.update(line.encode())
        self.n_events += 1
        if self.keep or self.n_events <= 400:
            self.log.append(line if len(line) < 400 else line[:400] + "...")

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.event("fault", what=kind, n=n)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, kind, n):
        self.steps[kind] = self.steps.get(kind, 0) + int(n)

    def state(self, *key):
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def violate(self, cls, msg):
        msg = clean(msg)
        self.event("violation", cls=cls, msg=msg)
        raise Violation(cls, msg)

    def check(self, ok, cls, msg):
        self.checks += 1
        if not ok:
            self.violate(cls, msg() if callable(msg) else msg)

    @property
    def digest(self):
        return self._h.hexdigest()

    def absorb(self, other):
        """Merge what a nested lifetime recorded."""
        self.event("lifetime", digest=other["digest"])
        for l in other["log"]:
            if self.keep or len(self.log) < 400:
                self.log.append("  " + l)
        for d, o in ((self.faults, other["faults"]), (self.probes, other["probes"]), (self.steps, other["steps"])):
            for k, v in o.items():
                d[k] = d.get(k, 0) + v
        self.states |= set(other["states"])
        self.checks += other["checks"]

    def export(self):
        return dict(digest=self.digest, log=self.log, faults=self.faults, probes=self.probes,
                    steps=self.steps, states=sorted(self.states), checks=self.checks, n_events=self.n_events)


def _plain(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return hash_arrays([x])
    if isinstance(x, (set, tuple)):
        return list(x)
    return str(x)


def hash_arrays(arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str((a.shape, a.dtype.str)).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:16]
