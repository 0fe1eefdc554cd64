"""Seams between the code under test and its environment.

Import this module before numpy consumers of the code under test: it wraps the numeric
kernels, and binds the preloaded disk shim (simdisk.c).
"""
import ctypes
import errno
import os
import pickle
import signal
import struct
import sys
import traceback
from contextlib import contextmanager

import numpy as np
import scipy.optimize

ERRNO = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EDQUOT", "EINTR", "EFBIG", "EROFS", "EACCES")}

# ------------------------------------------------------------------- disk
_lib = ctypes.CDLL(None)
try:
    _lib.simdisk_present()
except AttributeError:
    raise SystemExit("simdisk.so is not preloaded: start the checks with check.sh")
_lib.simdisk_start.argtypes = [ctypes.c_char_p]
_lib.simdisk_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_long]
_lib.simdisk_quota.argtypes = [ctypes.c_long]
_lib.simdisk_hits.argtypes = [ctypes.c_int]
for _n in ("simdisk_hits", "simdisk_quota_hits", "simdisk_clock", "simdisk_read_clock"):
    getattr(_lib, _n).restype = ctypes.c_long
_lib.simdisk_journal_len.restype = ctypes.c_ulong
_lib.simdisk_journal.restype = ctypes.c_void_p

KINDS = {"error": 1, "short": 2, "sigint": 3}


class Disk:
    """The simulated disk: everything the process does below one directory."""

    def start(self, path):
        self.path = os.path.realpath(path)
        _lib.simdisk_start(self.path.encode())
        self.rules = []

    def stop(self):
        _lib.simdisk_stop()

    def rule(self, kind, ops, nth, count=1, err="ENOSPC", arg=1):
        i = _lib.simdisk_rule(KINDS[kind], ops.encode(), nth, count, ERRNO[err], arg)
        assert i >= 0
        name = kind if kind != "error" else err
        self.rules.append((i, name + ("-read" if set(ops) <= set("or") else "")))
        return i

    def quota(self, n):
        _lib.simdisk_quota(n)

    def quota_hits(self):
        return _lib.simdisk_quota_hits()

    def hits(self):
        """{fault kind: how often it fired} since the last clear."""
        out = {}
        for i, name in self.rules:
            h = _lib.simdisk_hits(i)
            if h > 0:
                out[name] = out.get(name, 0) + h
        return out

    def clear(self):
        h = self.hits()
        _lib.simdisk_clear()
        self.rules = []
        return h

    @property
    def clock(self):
        return _lib.simdisk_clock()

    @property
    def read_clock(self):
        return _lib.simdisk_read_clock()

    def journal(self):
        n = _lib.simdisk_journal_len()
        if not n:
            return []
        return parse_journal(ctypes.string_at(_lib.simdisk_journal(), n))


disk = Disk()


class Op:
    __slots__ = ("op", "clock", "ino", "a", "b", "p1", "p2")

    def __init__(self, op, clock, ino, a, b, p1, p2):
        self.op, self.clock, self.ino, self.a, self.b, self.p1, self.p2 = op, clock, ino, a, b, p1, p2

    def __repr__(self):
        if self.op == "W":
            return f"{self.clock}:W@{self.a}+{self.b}"
        return f"{self.clock}:{self.op}{self.p1 if self.op in 'OPRLUMD' else ''}{'->' + self.p2 if self.op in 'RL' else ''}" + (f"={self.a}" if self.op == "T" else "")


def parse_journal(buf):
    out, i, inos = [], 0, {}
    while i < len(buf):
        op = chr(buf[i])
        clock, ino, a, b, n1, n2 = struct.unpack_from("<qQqqQQ", buf, i + 1)
        i += 49
        p1 = buf[i:i + n1]; i += n1
        p2 = buf[i:i + n2]; i += n2
        ino = inos.setdefault(ino, len(inos)) if op in "OPWTS" else -1
        if op == "W":
            out.append(Op(op, clock, ino, a, b, p1, None))
        else:
            out.append(Op(op, clock, ino, a, b, p1.decode(), p2.decode()))
    return out


def read_tree(root):
    """Content of a directory: {relative path: bytes}."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def write_tree(root, tree):
    for d, dirs, files in os.walk(root):
        for f in files:
            os.unlink(os.path.join(d, f))
    for rel, data in tree.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(data)


class Inode:
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = bytearray(data)

    def write(self, off, data):
        if len(self.data) < off:
            self.data.extend(bytes(off - len(self.data)))
        self.data[off:off + len(data)] = data

    def trunc(self, n):
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(bytes(n - len(self.data)))


def image_after(base, ops, upto, torn=None, lose=None, names_upto=None):
    """Disk content after a crash.

    base:  {path: bytes} when the journal started.
    upto:  the first `upto` operations were issued.
    torn:  None, or the number of bytes of operation `upto` (a write) that got through.
    lose:  None for a process kill (the kernel still has every issued write).  For a power
           loss, a function (index, op) -> None to keep the operation, or the number of bytes
           kept (0 = lost); it is asked about data operations that no later fsync covers.
    names_upto: for a power loss, how many operations' namespace changes survived.
    """
    names = {p: Inode(d) for p, d in base.items()}      # live namespace
    bound = {}                                           # journal inode id -> Inode
    synced = {}                                          # journal inode id -> last fsync index
    for i, o in enumerate(ops[:upto]):
        if o.op == "S":
            synced[o.ino] = i
    disk_names = dict(names) if names_upto is not None else None
    for i, o in enumerate(ops[:upto]):
        live = names_upto is None or i < names_upto
        if o.op == "O":
            if o.a or o.p1 not in names:
                node = Inode(); names[o.p1] = node
                if disk_names is not None and live:
                    disk_names[o.p1] = node
            else:
                node = names[o.p1]
                node.trunc(0)
            bound[o.ino] = node
        elif o.op == "P":
            if o.p1 in names:
                bound[o.ino] = names[o.p1]
        elif o.op in "WT":
            node = bound[o.ino]
            keep = None
            if lose is not None and synced.get(o.ino, -1) < i:
                keep = lose(i, o)
            if o.op == "W":
                data = o.p1 if keep is None else o.p1[:keep]
                if data:
                    node.write(o.a, data)
            elif keep is None:
                node.trunc(o.a)
        elif o.op == "R":
            if o.p1 in names:
                names[o.p2] = names.pop(o.p1)
            if disk_names is not None and live and o.p1 in disk_names:
                disk_names[o.p2] = disk_names.pop(o.p1)
        elif o.op == "L":
            if o.p1 in names:
                names[o.p2] = names[o.p1]
            if disk_names is not None and live and o.p1 in disk_names:
                disk_names[o.p2] = disk_names[o.p1]
        elif o.op == "U":
            names.pop(o.p1, None)
            if disk_names is not None and live:
                disk_names.pop(o.p1, None)
    if torn is not None and upto < len(ops) and ops[upto].op == "W":
        o = ops[upto]
        node = bound[o.ino]
        keep = o.p1[:torn]
        if keep:
            node.write(o.a, keep)
    final = names if disk_names is None else disk_names
    return {p: bytes(n.data) for p, n in final.items()}


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- kernels
class SimBudget(BaseException):
    """The simulated run took more steps than any legal run can."""


class Kernels:
    """Numeric kernel seam: numbers the calls and raises the planned exceptions."""

    NAMES = ("svd", "qr", "eigh", "lstsq", "pinv", "solve", "inv", "cholesky", "eig", "eigvalsh", "norm")
    EXC = {
        "KeyboardInterrupt": KeyboardInterrupt,
        "MemoryError": MemoryError,
        "LinAlgError": np.linalg.LinAlgError,
        "RuntimeError": RuntimeError,
    }

    MEASURES = ("norm", "sum")      # called by the reported measures too; counted only if wide

    def __init__(self):
        self.active = self.wide = False
        self.reset()

    def reset(self):
        self.calls = 0
        self.plan = {}
        self.fired = []
        self.budget = 2_000_000

    def hit(self, name):
        if not self.active or (name in self.MEASURES and not self.wide):
            return
        self.calls += 1
        if self.calls > self.budget:
            raise SimBudget(f"more than {self.budget} kernel calls")
        exc = self.plan.pop(self.calls, None)
        if exc is not None:
            self.fired.append((self.calls, name, exc))
            raise self.EXC[exc](f"injected at kernel call {self.calls} ({name})")

    @contextmanager
    def on(self):
        old, self.active = self.active, True
        try:
            yield self
        finally:
            self.active = old

    @contextmanager
    def off(self):
        old, self.active = self.active, False
        try:
            yield self
        finally:
            self.active = old


kernels = Kernels()


def _wrap(mod, name):
    real = getattr(mod, name, None)
    if real is None:
        return

    def kernel(*a, **k):
        kernels.hit(name)
        return real(*a, **k)
    kernel.__name__ = name
    kernel.__wrapped__ = real
    setattr(mod, name, kernel)


real_svd, real_qr, real_lstsq, real_eigh = np.linalg.svd, np.linalg.qr, np.linalg.lstsq, np.linalg.eigh
real_nnls = scipy.optimize.nnls
for _n in Kernels.NAMES:
    _wrap(np.linalg, _n)
_wrap(scipy.optimize, "nnls")
_wrap(np, "sum")


# ------------------------------------------------------- process lifetimes
class ChildDied(Exception):
    def __init__(self, what):
        self.what = what
        super().__init__(what)


def in_child(fn, *args):
    """Run fn in a forked process: a process lifetime of its own.  Its exceptions propagate."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                out = (True, fn(*args))
            except BaseException as e:
                out = (False, _portable(e))
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h, protocol=4)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise ChildDied(signal.Signals(os.WTERMSIG(st)).name)
    if not data:
        raise HarnessError(f"lifetime returned nothing (status {st})")
    ok, out = pickle.loads(data)
    if ok:
        return out
    raise out


class SutError(Exception):
    """An exception of the code under test, in portable form."""

    def __init__(self, typ, msg, where):
        self.typ, self.msg, self.where = typ, msg, where
        super().__init__(typ, msg, where)


def sut_frame(e):
    """'file.py:function' of the innermost frame in the code under test, or None."""
    where = None
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for f, _ in traceback.walk_tb(e.__traceback__):
            fn = f.f_code.co_filename
            if "/tenkit/" in fn and "/verif/" not in fn:
                where = f"{os.path.basename(fn)}:{f.f_code.co_name}"
        e = e.__context__ if where is None else None
    return where


def _portable(e):
    from sim.core import Violation, InvalidPlan
    if isinstance(e, (Violation, InvalidPlan, HarnessError, SutError, ChildDied)):
        return e
    where = sut_frame(e)
    if where is not None or isinstance(e, SimBudget):
        return SutError(type(e).__name__, str(e), where)
    return HarnessError("".join(traceback.format_exception(e))[-3000:])
