"""C16: shedding, convection and circulation of wakes vs their recorded histories."""
import numpy as np

import shipped
from models_lib import run_unsteady
from unsteady_ref import Step, VARIANTS, gen

PROP = "C16"
LEVEL_RULE = (
    "A case is one random unsteady model (as for C14) run by the solver; the recorded wake of every step is compared with the one that follows from the step "
    "before: rows, attachment, convection of every corner by the recomputed field, circulation and age of every ring. Non-trivial when a wake exists."
)
REQUIRED = ["rows", "attached", "shared-corners", "convected-prescribed", "convected-free", "impulsive-row", "shed-circulation", "kept-circulation", "age", "wing-record"]
ASSUMPTIONS = ["impulsive start: the first shed ring, at step one, extends from the trailing edge by the local velocity times the time step"]


def make_cases(tier):
    reps = 8 if tier == "quick" else 60
    return [dict(variant=v, free=f, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for f in (False, True)] + shipped.unsteady_cases(tier)


def vertices(w4, rows, nc):
    """(rows+1, nc+1, 3) vertices of one wing's wake and the worst mismatch of shared corners."""
    r = w4.reshape(rows, nc, 4, 3)
    V = np.zeros((rows + 1, nc + 1, 3))
    V[:-1, :-1], V[:-1, -1] = r[:, :, 0], r[:, -1, 1]
    V[-1, :-1], V[-1, -1] = r[-1, :, 2], r[-1, -1, 3]
    back = np.stack([V[:-1, :-1], V[:-1, 1:], V[1:, :-1], V[1:, 1:]], 2)
    return V, np.abs(back - r).max()


def run_case(case, rng, mon):
    if "script" in case:
        for _, s, prescribed in shipped.run(case["script"], case["steps"]):
            prev = None
            for k in range(len(s.steady_problems)):
                o = Step(s, k)
                check(s, o, prev, s.unsteady_problem.delta_time, not prescribed, mon)
                prev = o
        return
    m = gen(case["variant"], rng, free=case["free"])
    mon.sample = m
    s = run_unsteady(m)
    n, dt = m["time"]["num_steps"], m["time"]["delta_time"]
    prev = None
    for k in range(n):
        o = Step(s, k)
        check(s, o, prev, dt, not m["prescribed_wake"], mon)
        prev = o
    mon.state(case["variant"], case["free"], n, len(o.wG), o.n)
    mon.trivial = len(o.wG) == 0


def check(s, o, prev, dt, free, mon):
    k = o.k
    ok = s.num_wake_ring_vortices_list[k] == o.num_wake and len(o.wG) == o.num_wake and len(o.wage) == o.num_wake and len(o.wake) == o.num_wake
    if not mon.true("rows", ok, lambda: f"step {k}: {len(o.wG)} wake rings recorded, {o.num_wake} expected"):
        return
    if k == 0:
        return
    L = np.abs(o.C).max() + np.linalg.norm(o.Vinf) * dt * k
    for iw, (ia, w, off, nr, nc) in enumerate(o.wing_slices):
        a, rows, _ = o.wake_slices[iw]
        sl = slice(a, a + rows * nc)
        V, mis = vertices(o.wake[sl], rows, nc)
        mon.close("shared-corners", mis, 0.0, 1e-12, L)
        te = off + (nr - 1) * nc + np.arange(nc)
        att = np.vstack([o.ring[te, 2], o.ring[te[-1:], 3]])
        mon.close("attached", V[0], att, 1e-12, L, lambda: f"step {k}")
        gap = np.abs(o.ring[te[1:], 2] - o.ring[te[:-1], 3]).max() if nc > 1 else 0.0
        G, age = o.wG[sl].reshape(rows, nc), o.wage[sl].reshape(rows, nc)
        mon.close("shed-circulation", G[0], prev.G[te], 1e-12, np.abs(prev.G).max() + 1e-12, lambda: f"step {k}")
        mon.close("age", age, np.tile(np.arange(rows)[:, None] * dt, (1, nc)), 1e-9, dt, lambda: f"step {k}")
        rec = getattr(w, "wake_ring_vortex_vertices", None)
        if rec is not None and np.size(rec):
            mon.close("wing-record", rec, V, 1e-12, L)
        if k == 1:
            pts = V[0]
            want_from = V[0]
            got = V[1]
            clause = "impulsive-row"
        else:
            pa, prow, _ = prev.wake_slices[iw]
            P, _ = vertices(prev.wake[pa:pa + prow * nc], prow, nc)
            pts = P.reshape(-1, 3)
            want_from = pts
            got = V[1:].reshape(-1, 3)
            clause = "convected-free" if free else "convected-prescribed"
            pG = prev.wG[pa:pa + prow * nc].reshape(prow, nc)
            mon.close("kept-circulation", G[1:], pG, 1e-12, np.abs(pG).max() + 1e-12, lambda: f"step {k}")
        if not free:
            mon.close(clause, got, want_from + prev.Vinf * dt, 1e-10, L, lambda: f"step {k}")
        else:
            if prev.singular(pts):
                mon.counts["skipped-singular"] += 1
                continue
            v, worst = prev.field(pts, detail=True)
            sc = max(L, worst.max() * dt)
            mon.close(clause, got, want_from + v * dt, 1e-8, sc, lambda: f"step {k}")
