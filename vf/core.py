"""Runs the workloads of one property, collects what the monitors saw, decides, writes evidence.

A property module defines
    ID, RULE, ASSUME (list of strings)
    WORKLOADS: {name: Workload(fn, quick, thorough)}
and fn(rec, rng, idx) runs one case.  A case is identified by (workload, idx, seed) alone, so it
can be replayed."""
from __future__ import annotations

from . import vtime  # isort: skip

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
SOFT_CAP = {"quick": 600.0, "thorough": 7200.0}


@dataclass
class Workload:
    fn: object
    quick: int
    thorough: int
    shards: int = 0  # 0: as many as workers


class Violation(Exception):
    """Raised by Recorder.fail to leave the case."""


class CaseAbort(Exception):
    pass


@dataclass
class State:
    evaluations: int = 0
    distinct: set = field(default_factory=set)
    events: collections.Counter = field(default_factory=collections.Counter)
    groups: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    violations: list = field(default_factory=list)
    known: dict = field(default_factory=dict)
    errors: list = field(default_factory=list)
    skipped: int = 0


def load_known(prop: str) -> dict[str, str]:
    out: dict[str, str] = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                parts = line[len("known:"):].strip().split(None, 2)
                if parts[0] != f"property={prop}" or not parts[1].startswith("sig="):
                    continue
                out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    except FileNotFoundError:
        pass
    return out


def _h(key: object) -> str:
    return hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=9).hexdigest()


class Recorder:
    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop, self.tier, self.seed = prop, tier, seed
        self.st = State()
        self.known = load_known(prop)
        self.wl = ""
        self.idx = -1

    # --- what the monitors saw
    def ev(self, kind: str, n: int = 1) -> None:
        self.st.events[kind] += n

    def seen(self, group: str, key: object) -> None:
        """Counts distinct values observed (states, schedules, outcomes) per group."""
        self.st.groups.setdefault(group, set()).add(_h(key))

    def nontrivial(self, key: object) -> None:
        """This case exercised something; `key` identifies what, for counting distinct cases."""
        self.st.distinct.add(_h((self.wl, key)))

    def sample(self, obj: object) -> None:
        if len(self.st.samples) < 3:
            self.st.samples.append(json.loads(json.dumps({"workload": self.wl, "idx": self.idx, "case": obj}, default=repr)))

    # --- verdicts
    def fail(self, sig: str, detail: object = "") -> None:
        """A violation.  `sig` names the specific input, call site or history."""
        if sig in self.known:
            self.st.known[sig] = self.st.known.get(sig, 0) + 1
            return
        self.st.violations.append({
            "property": self.prop, "workload": self.wl, "idx": self.idx, "seed": self.seed,
            "tier": self.tier, "sig": sig, "detail": detail if isinstance(detail, str) else json.loads(json.dumps(detail, default=repr)),
        })

    def check(self, cond: object, sig: str, detail: object = "") -> bool:
        self.ev("checks")
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)
            return False
        return True


def _is_lib_tb(e: BaseException) -> bool:
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if "/connectrpc/" in last or "/connectrpc_otel/" in last or "/protoc_gen_connectrpc/" in last:
            return True
        tb = tb.tb_next
    return False


def run_case(rec: Recorder, mod, wl: str, idx: int) -> None:
    rec.wl, rec.idx = wl, idx
    rng = random.Random(f"{mod.ID}:{rec.seed}:{wl}:{idx}")
    rec.st.evaluations += 1
    try:
        mod.WORKLOADS[wl].fn(rec, rng, idx)
    except CaseAbort:
        pass
    except Exception as e:
        tb = traceback.format_exc(limit=-12)
        if _is_lib_tb(e):
            rec.fail(f"unexpected-exception:{type(e).__name__}", tb)
        else:
            rec.st.errors.append(f"{wl}/{idx}: {tb}")


class Watchdog(KeyboardInterrupt):
    """Raised in a case that burns CPU or stands still far beyond anything normal (event loops let a KeyboardInterrupt through)."""


CPU_LIMIT, REAL_LIMIT = 150.0, 420.0


def _lib_frame(f) -> str | None:
    while f is not None:
        n = f.f_code.co_filename
        if "/connectrpc/" in n or "/connectrpc_otel/" in n or "/protoc_gen_connectrpc/" in n:
            return f"{os.path.basename(n)}:{f.f_code.co_name}"
        f = f.f_back
    return None


class Watch:
    """A case must end.  CPU time finds endless loops, wall time finds threads that wait for each other."""

    def __init__(self) -> None:
        self.what = None
        signal.signal(signal.SIGPROF, self._fire)
        signal.signal(signal.SIGALRM, self._fire)

    def _fire(self, num, frame) -> None:
        if num == signal.SIGPROF:
            self.what = ("endless-loop", _lib_frame(frame))
        else:
            where = [_lib_frame(f) for f in sys._current_frames().values()]
            self.what = ("hang", next((w for w in where if w), None))
        raise Watchdog

    def arm(self) -> None:
        self.what = None
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 20)
        signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT, 20)

    def disarm(self) -> None:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _shard(args) -> State:
    modname, tier, seed, jobs, cap = args[:5]
    journal = args[5] if len(args) > 5 else None
    os.environ["PYTHONHASHSEED"] = "0"
    import resource
    mod = importlib.import_module(modname)
    if not getattr(mod, "MANY_THREADS", False):  # a stack and an arena of each thread count
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    rec = Recorder(mod.ID, tier, seed)
    if hasattr(mod, "setup"):
        mod.setup(rec)
    watch = Watch()
    t0 = vtime.real_monotonic()
    for n, (wl, idx) in enumerate(jobs):
        if vtime.real_monotonic() - t0 > cap:
            rec.st.skipped = len(jobs) - n
            break
        if journal:
            with open(journal, "w") as f:
                f.write(json.dumps([wl, idx]))
        watch.arm()
        try:
            run_case(rec, mod, wl, idx)
            watch.disarm()
        except Watchdog:
            watch.disarm()
            rec.st.errors.append(f"{wl}/{idx}: interrupted")
        if watch.what:
            kind, where = watch.what
            if where:
                rec.fail(f"{kind}:{where}", f"the case did not end within {CPU_LIMIT:.0f} s of CPU time / {REAL_LIMIT:.0f} s")
            else:
                rec.st.errors.append(f"{wl}/{idx}: {kind} outside the library")
            break
        if len(rec.st.violations) >= 8 or len(rec.st.errors) >= 5:
            break
    if hasattr(mod, "teardown"):
        mod.teardown(rec)
    rec.st.groups = {k: v for k, v in rec.st.groups.items()}
    return rec.st


def _child(conn, a) -> None:
    try:
        r = _shard(a)
    except BaseException:  # noqa: BLE001
        r = traceback.format_exc(limit=-12)
    conn.send(r)
    conn.close()


def _spawn(args: list) -> tuple[list, list]:
    """Runs the shards in a process each; returns the states and, for those which died, (args, exit code)."""
    from multiprocessing.connection import wait
    ctx = mp.get_context("spawn")
    running = {}
    for a in args:
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(w, a))
        p.start()
        w.close()
        running[r] = (p, a)
    states, dead = [], []
    while running:
        for r in wait(list(running)):
            p, a = running.pop(r)
            try:
                got = r.recv()
            except EOFError:
                p.join()
                dead.append((a, p.exitcode))
                continue
            if isinstance(got, str):
                st = State()
                st.errors.append(f"worker failed: {got}")
                got = st
            states.append(got)
            p.join(30)
            if p.is_alive():
                p.kill()
                p.join()
    return states, dead


def main(prop: str, tier: str | None = None, seed: int | None = None, workers: int | None = None,
         only: str | None = None) -> int:
    t0 = vtime.real_monotonic()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    seed = seed if seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    modname = f"vf.props.{prop.lower()}"
    try:
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check cannot be loaded")
        return 2
    workers = workers or getattr(mod, "WORKERS", None) or min(8, os.cpu_count() or 1)
    jobs = []
    for name, wl in mod.WORKLOADS.items():
        if only and name != only:
            continue
        n = wl.quick if tier == "quick" else wl.thorough
        jobs.extend((name, i) for i in range(n))
    # Interleave so that each shard gets a share of every workload.
    shards = [jobs[i::workers] for i in range(workers)]
    shards = [s for s in shards if s]
    args = [(modname, tier, seed, s, SOFT_CAP[tier]) for s in shards]
    states: list[State] = []
    infra: list[str] = []
    if len(args) == 1:
        states.append(_shard(args[0]))
    else:
        results, dead = _spawn(args)
        states.extend(results)
        if dead:
            # Run again what killed its process, noting where: twice at the same case is a verdict, once is bad luck.
            with tempfile.TemporaryDirectory() as tmp:
                js = [f"{tmp}/{i}" for i in range(len(dead))]
                results, again = _spawn([(*a, j) for (a, _), j in zip(dead, js)])
                states.extend(results)
                for a, code in again:
                    try:
                        wl, idx = json.load(open(a[5]))
                    except (OSError, ValueError):
                        infra.append(f"worker died ({code}) before its first case")
                        continue
                    if code == -signal.SIGKILL:
                        infra.append(f"worker was killed at {wl}/{idx}")
                    else:
                        rec = Recorder(mod.ID, tier, seed)
                        rec.wl, rec.idx = wl, idx
                        rec.st.evaluations = 1
                        rec.fail(f"process-died:{code}", "the process running the case ended in the middle of it, twice")
                        states.append(rec.st)
    tot = State()
    for s in states:
        tot.evaluations += s.evaluations
        tot.distinct |= s.distinct
        tot.events.update(s.events)
        for k, v in s.groups.items():
            tot.groups.setdefault(k, set()).update(v)
        tot.samples.extend(s.samples)
        tot.violations.extend(s.violations)
        for k, v in s.known.items():
            tot.known[k] = tot.known.get(k, 0) + v
        tot.errors.extend(s.errors)
        tot.skipped += s.skipped
    tot.errors.extend(infra)
    if hasattr(mod, "finish"):
        mod.finish(tot)
    wall = vtime.real_monotonic() - t0
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": len(tot.distinct),
            "rule": mod.RULE,
            "samples": tot.samples[:8],
            "monitored_events": dict(sorted(tot.events.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(tot.groups.items())},
            "cases_per_workload": {n: sum(1 for j in jobs if j[0] == n) for n in mod.WORKLOADS},
            "cases_not_run_for_time": tot.skipped,
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "violations": len(tot.violations),
        "known_findings_seen": tot.known,
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen_sigs = set()
    for v in tot.violations:
        if v["sig"] in seen_sigs:
            continue
        seen_sigs.add(v["sig"])
        path = os.path.join(EVID, "replays", f"{prop}-{v['workload']}-{v['idx']}-{len(seen_sigs)}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        d = v["detail"] if isinstance(v["detail"], str) else json.dumps(v["detail"])
        print(f"  {v['sig']}: {d[:600]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        if len(seen_sigs) >= 12:
            break
    # Listed findings are reported as such whether or not this run happened to meet them.
    for sig, text in load_known(prop).items():
        if tot.known.get(sig):
            print(f"KNOWN-FINDING: property={prop} {text}")
    for e in tot.errors[:5]:
        print("ERROR", e)
    print(f"{prop} {tier}: {tot.evaluations} cases, {len(tot.distinct)} distinct non-trivial, "
          f"{sum(tot.events.values())} events, {len(tot.violations)} violations, "
          f"{len(tot.errors)} errors, {wall:.1f}s" + (f", {tot.skipped} cases skipped for time" if tot.skipped else ""))
    if tot.violations:
        return 1
    if tot.errors:
        return 2
    return 0


def replay(path: str) -> int:
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module(f"vf.props.{v['property'].lower()}")
    rec = Recorder(mod.ID, v["tier"], v["seed"])
    if hasattr(mod, "setup"):
        mod.setup(rec)
    run_case(rec, mod, v["workload"], v["idx"])
    for x in rec.st.violations:
        print(json.dumps(x, indent=1))
    for e in rec.st.errors:
        print(e)
    return 1 if rec.st.violations else 0


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--case")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.case:
        from vf import core as _core
        mod = importlib.import_module(f"vf.props.{a.prop.lower()}")
        rec = _core.Recorder(mod.ID, a.tier or "quick", a.seed if a.seed is not None else 1)
        if hasattr(mod, "setup"):
            mod.setup(rec)
        w, i = a.case.split("/")
        _core.run_case(rec, mod, w, int(i))
        for x in rec.st.violations:
            print(json.dumps(x, indent=1))
        for e in rec.st.errors:
            print(e)
        print(dict(rec.st.events))
        sys.exit(1 if rec.st.violations else 0)
    from vf import core as _core
    sys.exit(_core.main(a.prop, a.tier, a.seed, a.workers, a.only))
