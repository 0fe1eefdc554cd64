"""Thread scheduler: every interleaving of the clients' statements is decided by the plan.

Each client is a real thread, but only the one that holds the baton runs.  A trace function stops a
client before every line (or every bytecode) of the code under test; the schedule then says whether
another client runs next.  What the threads of a process share through numpy (the global random
state) or through the simulator (the numeric kernel seam, standard output) is exchanged at every
switch, so that a client's own stream of random numbers, faults and output is that of a solo run.

Import this module before the code under test: locks that it makes are replaced by ones the
scheduler understands, so that a deadlock is found at once and is the same every time.
"""
import sys
import threading

import numpy as np

from sim.seams import HarnessError, kernels

_real_lock, _real_rlock = threading.Lock, threading.RLock
current = None


class Deadlock(BaseException):
    pass


class SimLock:
    def __init__(self, recursive):
        self.recursive, self.owner, self.depth = recursive, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = s.turn if s is not None and s.mine() else "main"
        while self.owner is not None and not (self.recursive and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if me == "main":
                raise HarnessError("a lock is held for ever")
            s.wait_for(self)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


def _lock():
    return SimLock(False) if "/tenkit/" in sys._getframe(1).f_code.co_filename else _real_lock()


def _rlock():
    return SimLock(True) if "/tenkit/" in sys._getframe(1).f_code.co_filename else _real_rlock()


threading.Lock, threading.RLock = _lock, _rlock


class Router:
    """Standard output: to each client its own."""

    def __init__(self, sched):
        self.sched = sched

    def write(self, s):
        self.sched.clients[self.sched.turn].out.append(s)

    def flush(self):
        pass


class Client:
    def __init__(self, fn):
        self.fn, self.go, self.done, self.result, self.out = fn, threading.Semaphore(0), False, None, []
        self.random, self.kernels, self.blocked = None, (0, {}, [], True), None
        self.points = 0


class Scheduler:
    """Runs clients to the end.  schedule: [[points to run, which of the others next], ...], repeated."""

    def __init__(self, fns, schedule, opcodes=False, cycle=True):
        self.clients = [Client(f) for f in fns]
        self.schedule, self.opcodes, self.cycle = schedule, opcodes, cycle
        self.i, self.left = 0, schedule[0][0] if schedule else None
        self.turn, self.finished = 0, threading.Semaphore(0)
        self.switches, self.points, self.where, self.deadlock = 0, 0, set(), False
        self.threads = {}
        self.idle = False

    def mine(self):
        return self.threads.get(threading.get_ident()) == self.turn

    # ---- called in client threads
    def trace(self, frame, event, arg):
        if "/tenkit/" not in frame.f_code.co_filename:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self.local

    def point(self, frame):
        if self.idle or not self.mine():
            return
        self.points += 1
        c = self.clients[self.turn]
        c.points += 1
        if c.points > 3_000_000:
            raise HarnessError("a client takes too many steps")
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        others = [k for k, o in enumerate(self.clients) if k != self.turn and not o.done and o.blocked is None]
        pick = self.schedule[self.i][1]
        self.i += 1
        if self.i >= len(self.schedule):
            if not self.cycle:
                self.left = None
            self.i = 0
        if self.left is not None:
            self.left = max(1, self.schedule[self.i][0])
        if others:
            self.where.add((frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno or 0))
            self.switch(others[min(int(pick * len(others)), len(others) - 1)])

    def switch(self, to):
        """Hand the baton over and wait until it comes back."""
        me = self.turn
        self.switches += 1
        self.park(me)
        self.turn = to
        self.unpark(to)
        self.clients[to].go.release()
        self.clients[me].go.acquire()
        if self.deadlock:
            raise Deadlock

    def wait_for(self, lock):
        c = self.clients[self.turn]
        c.blocked = lock
        free = [k for k, o in enumerate(self.clients) if not o.done and (o.blocked is None or o.blocked.owner is None)]
        if not free:
            self.deadlock = self.idle = True
            raise Deadlock
        for k in free:
            self.clients[k].blocked = None
        self.switch(free[0])
        c.blocked = None

    def park(self, k):
        c = self.clients[k]
        c.random = np.random.get_state()
        c.kernels = (kernels.calls, kernels.plan, kernels.fired, kernels.active)

    def unpark(self, k):
        c = self.clients[k]
        if c.random is not None:
            np.random.set_state(c.random)
        kernels.calls, kernels.plan, kernels.fired, kernels.active = c.kernels

    def body(self, k):
        c = self.clients[k]
        self.threads[threading.get_ident()] = k
        c.go.acquire()
        if not self.deadlock:
            sys.settrace(self.trace)
            try:
                c.result = ("ok", c.fn())
            except Deadlock:
                c.result = ("deadlock", None)
            except BaseException as e:
                c.result = ("error", e)
            finally:
                sys.settrace(None)
        c.done = True
        left = [j for j, o in enumerate(self.clients) if not o.done]
        if not left:
            self.finished.release()
            return
        ready = [j for j in left if self.clients[j].blocked is None or self.clients[j].blocked.owner is None]
        if not ready:
            self.deadlock = self.idle = True
        nxt = (ready or left)[0]
        self.clients[nxt].blocked = None
        self.park(k)
        self.turn = nxt
        self.unpark(nxt)
        self.clients[nxt].go.release()

    # ---- called in the main thread
    def run(self):
        global current
        current = self
        sys.stdout, old = Router(self), sys.stdout
        threads = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.clients))]
        try:
            with kernels.on():
                self.unpark(0)
                for t in threads:
                    t.start()
                self.clients[0].go.release()
                if not self.finished.acquire(timeout=100):
                    raise HarnessError("the interleaved clients do not end: one of them waits for something the scheduler does not control")
        finally:
            sys.stdout = old
            current = None
        for c in self.clients:
            if c.result is not None and c.result[0] == "error":
                raise c.result[1]
        return [c.result[1] if c.result else None for c in self.clients]
