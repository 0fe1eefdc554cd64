"""Batches of simulated runs: forking, minimising, replaying, evidence."""
import copy
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

import numpy as np

from sim import seams
from sim.core import InvalidPlan, Recorder, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIMEOUT = 120          # wall seconds for one run; only a hung run gets there


def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            d = os.path.join(base, f"tkverif-{os.getpid()}")
            os.makedirs(d, exist_ok=True)
            return d
    raise SystemExit("no scratch directory")


def run_plan(scen, plan, scratch, keep_log=False):
    """Execute one plan in this process.  Returns the result record."""
    R = Recorder(keep_log)
    R.dir = scratch
    out = {"status": "ok"}
    np.random.seed(plan.get("np_seed", 0) % 2 ** 32)
    try:
        try:
            seams.kernels.wide = getattr(scen, "WIDE", False)
            scen.run(plan, R)
        except seams.ChildDied as e:
            R.violate("process-died", f"a process of the run was killed by {e.what}")
        except seams.SutError as e:
            if e.where is None and e.typ != "SimBudget":
                raise
            R.violate(f"unexpected-{e.typ}", f"{e.typ}: {e.msg[:300]} in {e.where}")
        except seams.SimBudget as e:
            R.violate("no-end", str(e))
        except (Violation, InvalidPlan, seams.HarnessError):
            raise
        except BaseException as e:
            where = seams.sut_frame(e)
            if where is None:
                raise
            R.violate(f"unexpected-{type(e).__name__}", f"{type(e).__name__}: {str(e)[:300]} in {where}")
    except Violation as v:
        out = {"status": "violation", "cls": v.cls, "msg": v.msg}
    except InvalidPlan as e:
        out = {"status": "invalid", "msg": str(e)}
    except BaseException as e:
        out = {"status": "error", "msg": "".join(traceback.format_exception(e))[-4000:]}
    out.update(R.export())
    return out


class Pool:
    """Forks one process per run, `width` at a time; results do not depend on the width."""

    def __init__(self, scen, width, root, keep_log=False):
        self.scen, self.width, self.root, self.keep_log = scen, width, root, keep_log
        self.live = {}          # fd -> [key, pid, chunks, deadline, dir]
        self.n = 0

    def start(self, key, plan):
        self.n += 1
        d = os.path.join(self.root, f"r{self.n}")
        os.makedirs(d)
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in self.live:
                    os.close(fd)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 1); os.dup2(devnull, 2)
                out = run_plan(self.scen, plan, d, self.keep_log)
                with os.fdopen(w, "wb") as h:
                    pickle.dump(out, h, protocol=4)
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = [key, pid, [], time.time() + TIMEOUT, d]

    def poll(self, timeout=1.0):
        """Yield (key, result) of finished runs."""
        ready, _, _ = select.select(list(self.live), [], [], timeout)
        now = time.time()
        for fd in list(self.live):
            key, pid, chunks, deadline, d = self.live[fd]
            hung = now > deadline
            if fd in ready and not hung:
                b = os.read(fd, 1 << 20)
                if b:
                    chunks.append(b)
                    continue
            elif not hung:
                continue
            del self.live[fd]
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            self._clean(d)
            data = b"".join(chunks)
            empty = dict(digest="", log=[], faults={}, probes={}, steps={}, states=[], checks=0, n_events=0)
            if hung:
                yield key, {"status": "hang", "cls": "hang", "msg": f"the run did not end within {TIMEOUT} s", **empty}
                continue
            try:
                yield key, pickle.loads(data)
            except Exception:
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    name = signal.Signals(os.WTERMSIG(st)).name
                    yield key, {"status": "violation", "cls": "process-died", "msg": f"the process died: {name}", **empty}
                else:
                    yield key, {"status": "error", "msg": f"the run's process ended without a result (status {st})", **empty}

    def _clean(self, d):
        assert d.startswith(self.root + "/") and "tkverif-" in d
        shutil.rmtree(d, ignore_errors=True)

    def one(self, plan):
        self.start(None, plan)
        while True:
            for _, res in self.poll():
                return res

    def kill(self):
        for fd, (key, pid, *_rest) in list(self.live.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            os.waitpid(pid, 0)
            os.close(fd)
            del self.live[fd]


def plan_for(scen, seed, i):
    rng = random.Random(f"{scen.ID}:{seed}:{i}")
    plan = scen.gen(rng)
    plan["np_seed"] = rng.randrange(2 ** 31)
    return plan


def is_bad(res, scen):
    return res["status"] == "violation" or (res["status"] == "hang" and getattr(scen, "HANG_IS_VIOLATION", False))


# ---------------------------------------------------------------- minimise
SKIP = {"seed", "np_seed", "pre_seed", "kind", "scale", "err"}


def shrinks(plan):
    """Simpler plans, most promising first."""
    def paths(x, p=()):
        if isinstance(x, dict):
            for k in sorted(x):
                if k not in SKIP:
                    yield from paths(x[k], p + (k,))
        elif isinstance(x, list):
            yield p, "list", x
            for i, v in enumerate(x):
                yield from paths(v, p + (i,))
        else:
            yield p, "leaf", x

    def put(p, v, drop=False):
        q = copy.deepcopy(plan)
        y = q
        for k in p[:-1]:
            y = y[k]
        if drop:
            del y[p[-1]]
        else:
            y[p[-1]] = v
        return q
    todo = list(paths(plan))
    for p, t, v in todo:                       # halves of lists, then single elements
        if t == "list" and p and p[-1] in ("ops", "faults", "crashes", "pollute", "rounds", "clients", "steps", "loggers", "schedule"):
            if len(v) > 2:
                yield put(p, v[:len(v) // 2]); yield put(p, v[len(v) // 2:])
            for i in reversed(range(len(v))):
                yield put(p, v[:i] + v[i + 1:])
    for p, t, v in todo:
        if p and p[-1] in ("nonneg", "ridge", "orth", "fault", "print") and v is not None:
            yield put(p, None)
    for p, t, v in todo:
        if t != "leaf" or not p:
            continue
        if v is True:
            yield put(p, False)
        elif isinstance(v, int) and not isinstance(v, bool) and v > 1:
            yield put(p, v // 2)
            yield put(p, v - 1)
        elif isinstance(v, float) and v not in (0.0, 1.0, 0.5) and 0 < v < 1:
            yield put(p, 0.5)
        elif v in ("F", "strided", "moved"):
            yield put(p, "C")


def minimise(scen, plan, res, pool, seconds=60, tries=400):
    t0, best, n = time.time(), plan, 0
    improved = True
    while improved and n < tries and time.time() - t0 < seconds:
        improved = False
        for cand in shrinks(best):
            if n >= tries or time.time() - t0 > seconds:
                break
            n += 1
            r = pool.one(cand)
            if is_bad(r, scen) and r["cls"] == res["cls"]:
                best, res, improved = cand, r, True
                break
    return best, res, n


# ----------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as h:
        return json.load(h)["findings"]


def match_known(prop, plan, res):
    for k in known_findings():
        if k["property"] == prop and k["cls"] == res["cls"] and all(_get(plan, p) == v for p, v in k.get("plan", {}).items()):
            return k
    return None


def _get(plan, dotted):
    x = plan
    for k in dotted.split("."):
        x = x.get(k) if isinstance(x, dict) else None
    return x


# --------------------------------------------------------------------- main
def check(scen, tier, seed, runs=None, width=None, out_dir=None, verbose=False):
    t0 = time.time()
    width = width or int(os.environ.get("VERIF_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    total = runs or scen.RUNS[tier]
    cap = {"quick": 240, "thorough": 3000}[tier]
    root = scratch_root()
    pool = Pool(scen, width, root)
    agg = dict(runs=0, invalid=0, faults={}, probes={}, steps={}, states=set(), checks=0, digests=set(), events=0)
    bad, errors, samples, known = {}, [], [], {}
    cut = False
    try:
        nxt, stop_at = 0, total
        while nxt < min(stop_at, total) or pool.live:
            while len(pool.live) < width and nxt < min(stop_at, total):
                if time.time() - t0 > cap:
                    stop_at, cut = nxt, True
                    break
                pool.start(nxt, plan_for(scen, seed, nxt))
                nxt += 1
            for i, res in pool.poll():
                if res["status"] == "invalid":
                    agg["invalid"] += 1
                    if verbose:
                        print("invalid", i, res["msg"])
                    continue
                agg["runs"] += 1
                for d in ("faults", "probes", "steps"):
                    for k, v in res[d].items():
                        agg[d][k] = agg[d].get(k, 0) + v
                agg["states"] |= set(res["states"])
                agg["checks"] += res["checks"]
                agg["events"] += res["n_events"]
                agg["digests"].add(res["digest"])
                if len(samples) < 2 and i < 8 and res["status"] == "ok":
                    samples.append({"run": i, "plan": plan_for(scen, seed, i), "events": res["log"][:25], "digest": res["digest"]})
                if is_bad(res, scen):
                    plan = plan_for(scen, seed, i)
                    k = match_known(scen.ID, plan, res)
                    if k is not None:
                        known[k["what"]] = known.get(k["what"], 0) + 1
                        continue
                    bad[i] = (plan, res)
                    stop_at = min(stop_at, i)
                elif res["status"] in ("error", "hang"):
                    errors.append((i, res["msg"]))
        status, replay = 0, None
        if errors and not bad:
            status = 2
            for i, m in errors[:3]:
                print(f"ERROR property={scen.ID} run {i}: {m}")
        if bad:
            i = min(bad)
            plan, res = bad[i]
            print(f"run {i} (seed {seed}): {res['cls']}: {res['msg']}")
            small, sres, n = minimise(scen, plan, res, pool)
            print(f"minimised in {n} runs: {sres['cls']}: {sres['msg']}")
            replay = write_replay(scen, seed, i, plan, small, sres, out_dir)
            status = 1
            print(f"VIOLATION property={scen.ID} replay={replay}")
        for what, n in known.items():
            print(f"KNOWN-FINDING: property={scen.ID} {what} ({n} runs)")
        write_evidence(scen, tier, seed, agg, samples, time.time() - t0, total, cut, width, bad, replay, known, errors)
        if status == 0 and agg["runs"] == 0:
            print("ERROR no run was valid")
            status = 2
        if status == 0:
            print(f"OK property={scen.ID} runs={agg['runs']} checks={agg['checks']} states={len(agg['states'])} "
                  f"faults={sum(agg['faults'].values())} wall={time.time() - t0:.1f}s")
        return status
    finally:
        pool.kill()
        if "tkverif-" in root:
            shutil.rmtree(root, ignore_errors=True)


def write_replay(scen, seed, i, plan, small, res, out_dir=None):
    d = out_dir or os.path.join(VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{scen.ID}-{seed}-{i}.json")
    with open(path, "w") as h:
        json.dump({"property": scen.ID, "seed": seed, "run": i, "plan": small, "original_plan": plan,
                   "violation": {"cls": res["cls"], "msg": res["msg"]}, "digest": res["digest"],
                   "faults_fired": res["faults"], "trace": res["log"]}, h, indent=1)
    return path


def write_evidence(scen, tier, seed, agg, samples, wall, total, cut, width, bad, replay, known, errors):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    per_hour = int(agg["runs"] / max(wall, 1e-9) * 3600)
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["states"]),
        "rule": scen.RULE,
        "samples": samples,
        "oracle_checks": agg["checks"],
        "distinct_event_logs": len(agg["digests"]),
        "invalid_plans_skipped": agg["invalid"],
        "runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "planned_runs": total,
        "stopped_by_wall_cap": cut,
        "simulated_time": {"unit": "logical steps (the code under test reads no clock)", **agg["steps"]},
        "faults_injected": agg["faults"],
        "rare_conditions_reached": agg["probes"],
        "distinct_measure": scen.MEASURE,
        "components_real": scen.REAL,
        "components_stubbed": scen.STUB,
        "workers": width,
    }
    if replay:
        cov["replay"] = replay
    if known:
        cov["known_findings_seen"] = known
    if errors:
        cov["harness_errors"] = len(errors)
    ev = {"property": scen.ID, "tier": tier, "seed": seed, "level": scen.LEVEL, "coverage": cov,
          "assumptions": scen.ASSUMES, "wall_s": round(wall, 2), "violations": len(bad)}
    with open(os.path.join(d, f"{scen.ID}.json"), "w") as h:
        json.dump(ev, h, indent=1)
