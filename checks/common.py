"""Harness shared by all property checks.

Every property module defines
    PROP          its id
    LEVEL_RULE    text: how cases are made and what makes one non-trivial
    REQUIRED      names of the monitor clauses that have to have been evaluated
    make_cases(tier) -> list of JSON-able case descriptors (dicts with a "kind")
    run_case(case, rng, mon)   builds and runs real code, feeding observations to mon
The harness runs the cases in forked workers, collects the monitors' verdicts and
writes the evidence file.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PKG = os.path.join(REPO, "pterasoftware") + os.sep


class Abort(Exception):
    """Raised by a case when it turned out to be outside the property's domain."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Mon:
    """Collects the oracle decisions of one case."""

    def __init__(self):
        self.counts = collections.Counter()
        self.margins = {}
        self.fails = []
        self.states = set()
        self.trivial = False
        self.sample = None
        self.aborted = None

    def fail(self, clause, msg, key=None):
        if len(self.fails) < 20:
            self.fails.append((clause, str(msg)[:600], key))

    def true(self, clause, cond, msg="", key=None):
        self.counts[clause] += 1
        if not cond:
            self.fail(clause, msg() if callable(msg) else msg, key)
        return bool(cond)

    def close(self, clause, got, want, tol=1e-8, scale=0.0, msg="", key=None):
        """|got - want| <= tol * max(|want|, |scale|), elementwise on the worst."""
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.counts[clause] += 1
            self.fail(clause, f"not numeric: {got!r} {want!r} {msg}", key)
            return False
        self.counts[clause] += 1
        if got.shape != want.shape:
            self.fail(clause, f"shape {got.shape} instead of {want.shape} {msg}", key)
            return False
        if got.size == 0:
            return True
        ref = max(float(np.max(np.abs(want))), float(np.max(np.abs(scale))), 1e-300)
        err = np.abs(got - want) / ref
        if not np.all(np.isfinite(err)):
            self.fail(clause, f"not finite: got {got.ravel()[:6]} want {want.ravel()[:6]} {msg}", key)
            return False
        worst = float(err.max())
        if worst > self.margins.get(clause, (0.0, 0))[0]:
            self.margins[clause] = (worst, tol)
        if worst > tol:
            i = np.unravel_index(int(err.argmax()), err.shape) if err.shape else ()
            self.fail(
                clause,
                f"relative error {worst:.3g} > {tol:g} at {tuple(int(q) for q in i)}: got {got[i]!r} want {want[i]!r} {msg() if callable(msg) else msg}",
                key,
            )
            return False
        return True

    def state(self, *sig):
        self.states.add(zlib.crc32(repr(sig).encode()))


def rng_for(seed, prop, case):
    s = json.dumps(jsonable(case), sort_keys=True)
    h = hashlib.sha256(f"{seed}|{prop}|{s}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, seed, limit):
    mon = Mon()
    t0 = time.time()
    status = "ok"
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run_case(case, rng_for(seed, mod.PROP, case), mon)
    except Abort as e:
        status = "aborted"
        mon.aborted = str(e)
    except CaseTimeout:
        status = "timeout"
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-6:]
        mon.fail("valid-model-runs", f"{type(e).__name__}: {e} at {where}", None)
    finally:
        signal.alarm(0)
    return dict(
        case=case,
        status=status,
        counts=dict(mon.counts),
        margins=mon.margins,
        fails=mon.fails,
        states=mon.states,
        trivial=mon.trivial,
        sample=jsonable(mon.sample),
        aborted=mon.aborted,
        wall=time.time() - t0,
    )


def _worker(rd, wr, mod, cases, seed, limit):
    """Forked worker: takes case indices from a pipe, sends results back."""
    import pickle
    import struct

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PTERA_DEBUG"):
        os.dup2(devnull, 2)
    scratch = os.path.join(os.environ.get("PTERA_WORK", "/tmp"), f"w{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    while True:
        b = os.read(rd, 4)
        if len(b) < 4:
            os._exit(0)
        (i,) = struct.unpack("i", b)
        if i < 0:
            os._exit(0)
        r = run_one(mod, cases[i], seed, limit)
        try:
            data = pickle.dumps((i, r))
        except Exception:
            r["sample"] = None
            r["fails"] = [(a, str(b), None) for a, b, c in r["fails"]]
            data = pickle.dumps((i, r))
        data = struct.pack("q", len(data)) + data
        while data:
            n = os.write(wr, data)
            data = data[n:]


def run_parallel(mod, cases, seed, limit, wall_cap, workers):
    """Runs all cases in forked workers; one case at a time per worker."""
    import pickle
    import select
    import struct

    procs = {}
    t0 = time.time()
    results = [None] * len(cases)
    order = list(range(len(cases)))
    nxt = 0
    sys.stdout.flush()

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for p in list(procs.values()):
                os.close(p["in"])
                os.close(p["out"])
            try:
                _worker(r1, w2, mod, cases, seed, limit)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        procs[r2] = {"pid": pid, "in": w1, "out": r2, "buf": b"", "job": None}
        return procs[r2]

    def give(p):
        nonlocal nxt
        if nxt < len(order) and time.time() - t0 < wall_cap:
            p["job"] = order[nxt]
            p["t"] = time.time()
            os.write(p["in"], struct.pack("i", order[nxt]))
            nxt += 1
        else:
            p["job"] = None
            os.write(p["in"], struct.pack("i", -1))

    for _ in range(min(workers, len(cases))):
        give(spawn())
    died = collections.Counter()
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            p = procs[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                os.close(fd)
                os.close(p["in"])
                _, st = os.waitpid(p["pid"], 0)
                del procs[fd]
                if p["job"] is not None:
                    # The worker died during this case.
                    results[p["job"]] = dict(
                        case=cases[p["job"]], status="died", counts={}, margins={},
                        fails=[], states=set(), trivial=True, sample=None,
                        aborted=f"worker status {st}", wall=0.0)
                    give(spawn())
                continue
            p["buf"] += data
            while len(p["buf"]) >= 8:
                (n,) = struct.unpack("q", p["buf"][:8])
                if len(p["buf"]) < 8 + n:
                    break
                i, r = pickle.loads(p["buf"][8 : 8 + n])
                p["buf"] = p["buf"][8 + n :]
                results[i] = r
                give(p)
        for p in list(procs.values()):
            if p["job"] is not None and time.time() - p["t"] > limit + 60:
                os.kill(p["pid"], signal.SIGKILL)
    return results


def load_known():
    """known_findings.txt lines: 'known: property=<id> key=<key> <text>'."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = dict(q.split("=", 1) for q in line.split()[1:3])
                known[(parts["property"], parts["key"])] = " ".join(line.split()[3:])
    return known


def warm():
    """Compile the numba kernels once, before forking."""
    from models_lib import warm_kernels

    warm_kernels()


def main(mod, tier, replay=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = mod.PROP
    import pterasoftware

    if not os.path.abspath(pterasoftware.__file__).startswith(PKG):
        print(f"wrong package {pterasoftware.__file__}")
        return 2
    if replay:
        d = json.load(open(replay))
        cases, seed = [d["case"]], d["seed"]
    else:
        cases = mod.make_cases(tier)
    if getattr(mod, "WARM", True):
        try:
            warm()
        except Exception:
            # Let the cases find it.
            traceback.print_exc()
    limit = int(getattr(mod, "CASE_LIMIT", {}).get(tier, 240 if tier == "quick" else 900))
    wall_cap = float(getattr(mod, "WALL_CAP", {}).get(tier, 540 if tier == "quick" else 7200))
    workers = int(os.environ.get("PTERA_WORKERS", os.cpu_count() or 4))
    results = run_parallel(mod, cases, seed, limit, wall_cap, workers)
    done = [r for r in results if r is not None]
    known = load_known()
    counts, margins, states, statuses = collections.Counter(), {}, set(), collections.Counter()
    viols, found = [], collections.OrderedDict()
    sigs = set()
    for r in done:
        counts.update(r["counts"])
        statuses[r["status"]] += 1
        states |= r["states"]
        for k, v in r["margins"].items():
            if v[0] > margins.get(k, (0, 0))[0]:
                margins[k] = v
        if r["status"] == "ok" and not r["trivial"] and r["counts"]:
            sigs.add(json.dumps(jsonable(r["case"]), sort_keys=True))
        for clause, msg, key in r["fails"]:
            if key is not None and (prop, key) in known:
                found.setdefault(key, f"{known[(prop, key)]}")
            else:
                viols.append((r["case"], clause, msg))
    for key, text in found.items():
        print(f"KNOWN-FINDING: property={prop} key={key} {text}")
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    if not replay:
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, f))
    seen = collections.Counter()
    for case, clause, msg in viols:
        seen[clause] += 1
        if seen[clause] > 1 or len(seen) > 6:
            continue
        path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
        if replay:
            path = replay
        else:
            json.dump(dict(property=prop, tier=tier, seed=seed, case=jsonable(case), clause=clause, message=msg), open(path, "w"), indent=1)
        print(f"  {clause}: {msg}")
        print(f"  case {json.dumps(jsonable(case))[:400]}")
        print(f"VIOLATION property={prop} replay={path}")
    missing = [c for c in mod.REQUIRED if counts.get(c, 0) == 0]
    wall = time.time() - t0
    samples = [dict(case=r["case"], model=r["sample"], clauses=r["counts"]) for r in done if r["status"] == "ok" and r["sample"] is not None][:3]
    if not samples:
        samples = [dict(case=r["case"], clauses=r["counts"]) for r in done if r["status"] == "ok"][:3]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(done), distinct_nontrivial=len(sigs), rule=mod.LEVEL_RULE,
            samples=jsonable(samples), oracle_decisions=int(sum(counts.values())),
            decisions_per_clause={k: int(v) for k, v in sorted(counts.items())},
            worst_relative_error_per_clause={k: [float(v[0]), float(v[1])] for k, v in sorted(margins.items())},
            distinct_observed_states=len(states), case_outcomes=dict(statuses),
            cases_planned=len(cases), slowest_case_s=max([r["wall"] for r in done] or [0]),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=wall, violations=len(viols),
    )
    if not replay:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier} seed {seed}: {len(done)}/{len(cases)} cases {dict(statuses)}, {sum(counts.values())} decisions, {len(states)} states, {len(viols)} violations, {wall:.1f} s")
    if os.environ.get("PTERA_VERBOSE"):
        for k in sorted(counts):
            print("   ", k, counts[k], margins.get(k))
        for r in sorted(done, key=lambda r: -r["wall"])[:5]:
            print("    slow", round(r["wall"], 2), json.dumps(jsonable(r["case"]))[:150])
        for r in done:
            if r["aborted"]:
                print("    aborted", r["aborted"], json.dumps(jsonable(r["case"]))[:150])
    if viols:
        return 1
    if replay:
        return 0
    if missing:
        print(f"INCONCLUSIVE: monitors never reached: {missing}")
        return 3
    bad = statuses["timeout"] + statuses["died"]
    if bad > 0.2 * len(done) or len(done) < 0.2 * len(cases):
        print(f"INCONCLUSIVE: {bad} cases without an answer, {len(done)} of {len(cases)} run")
        return 3
    return 0
