"""C14: flow tangency on the moving wings at every step of unsteady runs."""
import numpy as np

import shipped
from models_lib import choice, run_unsteady
from unsteady_ref import Step, VARIANTS, gen, own_velocity

PROP = "C14"
LEVEL_RULE = (
    "A case is one random unsteady model (class, motion, wake model and results option stratified) run by the solver; every panel of every step is one "
    "tangency observation against the velocity field recomputed from the recorded bound and wake vortices. Non-trivial when some circulation is nonzero."
)
REQUIRED = ["tangency", "tangency-first", "tangency-wake", "bound-position", "bound-trailing", "solution-field"]


def make_cases(tier):
    reps = 8 if tier == "quick" else 60
    return [dict(variant=v, free=f, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for f in (False, True)] + shipped.unsteady_cases(tier)


def run_case(case, rng, mon):
    if "script" in case:
        for _, s, _ in shipped.run(case["script"], case["steps"]):
            prev = None
            for k in range(len(s.steady_problems)):
                o = Step(s, k)
                check(o, prev, s.unsteady_problem.delta_time, None, mon)
                prev = o
        return
    m = gen(case["variant"], rng, free=case["free"])
    m["only_final_results"] = bool(rng.integers(3) == 0)
    mon.sample = m
    s = run_unsteady(m)
    dt = m["time"]["delta_time"]
    prev = None
    for k in range(m["time"]["num_steps"]):
        o = Step(s, k)
        check(o, prev, dt, m, mon)
        prev = o
    mon.trivial = not (np.abs(prev.G) > 0).any()
    mon.state(case["variant"], case["free"], k, o.n, len(o.wG))
    # The last step's field, as the solver itself reports it, at the control points.
    pts = o.q["colloc"]
    if not o.singular(pts):
        v, worst = o.field(pts, detail=True)
        mon.close("solution-field", s.calculate_solution_velocity(pts), v, 1e-7, worst.max())


def check(o, prev, dt, m, mon):
    c = o.q["colloc"]
    if not mon.true("bound-position", len(o.ring) == o.n and len(o.hs) == 0, "panels without ring vortex"):
        return
    if len(o.wake) != o.num_wake:
        mon.true("tangency", False, f"{len(o.wake)} recorded wake rings instead of {o.num_wake}")
        return
    L = np.abs(o.C).max()
    mon.close("bound-position", o.ring[:, 0], o.q["vfl"], 1e-12, L)
    mon.close("bound-position", o.ring[:, 1], o.q["vfr"], 1e-12, L)
    for _, w, off, nr, nc in o.wing_slices:
        idx = off + np.arange(nr * nc).reshape(nr, nc)
        if nr > 1:
            mon.close("bound-position", o.ring[idx[:-1].ravel(), 2:], o.ring[idx[1:].ravel(), :2], 1e-12, L)
        te = idx[-1]
        d = 0.25 * dt * o.Vinf
        for a, b in ((0, 2), (1, 3)):
            mon.close("bound-trailing", o.ring[te, b], o.ring[te, a] + o.C[te, b] - o.C[te, a] + d, 1e-12, L)
    if o.singular(c):
        return
    v, worst = o.field(c, detail=True)
    v = v - own_velocity(c, prev.q["colloc"] if prev is not None else None, dt)
    res = (v * o.q["normal"]).sum(1)
    V = max(np.linalg.norm(o.Vinf), np.linalg.norm(v, axis=1).max())
    clause = "tangency-first" if prev is None else ("tangency-wake" if o.k > 2 else "tangency")
    mon.close(clause, res, np.zeros(o.n), 1e-7, V + 1e-3 * worst.max(), lambda: f"step {o.k} of variant; residuals {res[:5] / V}")
