"""C23: velocities and streamlines reported by solved models vs an independent superposition over their recorded vortices."""
import numpy as np

from models_lib import HS, RING, R, choice, gen_steady, run_steady, run_unsteady
from p_c02 import VARIANTS as SV
import ref
from steady_ref import Obs
from unsteady_ref import VARIANTS as UV, Step, gen
import pterasoftware as ps

PROP = "C23"
LEVEL_RULE = (
    "A case is one solved model of one of the three solvers, queried at scattered points around, on and inside the vortex lattice and wake in several batches and orders, and its streamlines with "
    "default or chosen step counts and increments. Non-trivial when vortices carry circulation."
)
REQUIRED = ["panel-sum", "field", "field-unsteady", "batching", "order", "finite", "far", "seeds", "streamline-start", "streamline-advance", "streamline-field", "streamline-shape", "repeat"]
ASSUMPTIONS = ["points closer to a coreless leg than about 1e-6 of its length are only required to give finite values"]


def make_cases(tier):
    reps = 8 if tier == "quick" else 40
    out = []
    for r in range(reps):
        out += [dict(solver=k, variant=v, rep=r) for k in (HS, RING) for v in range(len(SV))]
        out += [dict(solver="unsteady", variant=v, free=f, rep=r) for v in range(len(UV)) for f in (False, True)]
    return out


class Steady:
    def __init__(self, s, kind, op):
        self.o = Obs(s.airplanes, kind)
        self.Vinf = ref.freestream(op)
        self.airplanes = s.airplanes

    def field(self, pts):
        v, w = self.o.induced(pts, detail=True)
        return v + self.Vinf, np.maximum(w, np.linalg.norm(self.Vinf))

    def legs(self):
        o = self.o
        L = [(o.ring[:, i], o.ring[:, j]) for i, j in ((1, 0), (0, 2), (2, 3), (3, 1))] if len(o.ring) else []
        return L + ([(o.hs[:, i], o.hs[:, j]) for i, j in ((1, 0), (0, 2), (3, 1))] if len(o.hs) else [])


class Unsteady:
    def __init__(self, s):
        self.o = self.s = Step(s, s.num_steps - 1)
        self.Vinf = self.s.Vinf
        self.airplanes = s.steady_problems[-1].airplanes

    def field(self, pts):
        return self.s.field(pts, detail=True)

    def legs(self):
        out = []
        for rings in (self.s.ring, self.s.wake):
            if len(rings):
                out += [(rings[:, i], rings[:, j]) for i, j in ((1, 0), (0, 2), (2, 3), (3, 1))]
        return out


def near(legs, pts):
    """Points ill-placed with respect to some leg's line."""
    bad = np.zeros(len(pts), bool)
    for a, b in legs:
        e = b - a
        n = np.linalg.norm(e, axis=1)
        ok = n > 0
        a, e, n = a[ok], e[ok] / n[ok, None], n[ok]
        r = pts[:, None] - a[None]
        s = (r * e).sum(-1)
        d = np.linalg.norm(r - s[..., None] * e, axis=-1)
        bad |= ((d < 1e-5 * n) & (s > -0.2 * n) & (s < 1.2 * n)).any(1)
    return bad


def run_case(case, rng, mon):
    uns = case["solver"] == "unsteady"
    if uns:
        m = gen(case["variant"], rng, free=case["free"])
        mon.sample = m
        s = run_unsteady(m, only_final=bool(rng.integers(2)), calculate_streamlines=True)
        f = Unsteady(s)
    else:
        m = gen_steady(rng, **SV[case["variant"]])
        mon.sample = m
        s = run_steady(m, case["solver"])
        f = Steady(s, case["solver"], m["op"])
    C = f.o.C.reshape(-1, 3)
    lo, hi = C.min(0), C.max(0)
    size = (hi - lo).max()
    ctr = (lo + hi) / 2
    legs = f.legs()
    mids = np.concatenate([(a + b) / 2 for a, b in legs])
    pts = [rng.uniform(lo - 0.5 * size, hi + 0.5 * size, (12, 3)), f.o.q["colloc"][:6], mids[rng.integers(len(mids), size=8)] + rng.normal(size=(8, 3)) * 0.02 * size,
           mids[rng.integers(len(mids), size=4)] + rng.normal(size=(4, 3)) * 1e-3 * size]
    if uns and len(f.s.wake):
        W = f.s.wake.reshape(-1, 3)
        pts.append(rng.uniform(W.min(0) - 0.1 * size, W.max(0) + 0.1 * size, (8, 3)))
        pts.append(f.s.wake.mean(1)[:6])
    P = np.concatenate(pts)
    got = np.asarray(s.calculate_solution_velocity(points=P), float)
    mon.true("finite", got.shape == P.shape and np.isfinite(got).all(), f"shape {got.shape}")
    want, worst = f.field(P)
    ok = ~near(legs, P)
    for i in np.flatnonzero(ok):
        mon.close("field-unsteady" if uns else "field", got[i], want[i], 1e-6, worst[i], f"at {P[i].tolist()}")
    mon.trivial = not np.abs(want - f.Vinf).max() > 0
    mon.state(case["solver"], case["variant"], f.o.n, len(P))
    sc = np.abs(got).max()
    if not uns:
        # The panels' own answers add up to the field.
        for i in rng.permutation(np.flatnonzero(ok))[:3]:
            tot = f.Vinf + sum(np.asarray(p.calculate_induced_velocity(P[i]), float) for a in s.airplanes for w in a.wings for p in np.ravel(w.panels))
            mon.close("panel-sum", tot, want[i], 1e-6, worst[i], f"at {P[i].tolist()}")
    # Batches, orders, repeats.
    k = int(rng.integers(1, len(P)))
    two = np.vstack([s.calculate_solution_velocity(points=P[:k]), s.calculate_solution_velocity(points=P[k:])])
    mon.close("batching", two, got, 1e-9, sc)
    mon.close("batching", s.calculate_solution_velocity(points=P[:1]), got[:1], 1e-9, sc, "a single point")
    p = rng.permutation(len(P))
    mon.close("order", s.calculate_solution_velocity(points=P[p]), got[p], 1e-9, sc)
    mon.close("repeat", s.calculate_solution_velocity(points=np.vstack([P, P])), np.vstack([got, got]), 1e-9, sc)
    # Many points at once, in no particular number.
    big = rng.uniform(lo - 0.5 * size, hi + 0.5 * size, (int(rng.integers(300, 2600)), 3))
    big[rng.integers(len(big), size=len(P))] = P
    gb = np.asarray(s.calculate_solution_velocity(points=big), float)
    if mon.true("batching", gb.shape == big.shape, f"shape {gb.shape} for {len(big)} points"):
        cut = int(rng.integers(1, 200))
        parts = np.vstack([s.calculate_solution_velocity(points=big[i : i + cut]) for i in range(0, len(big), cut)])
        mon.close("batching", gb, parts, 1e-9, max(sc, np.abs(gb).max()), f"{len(big)} points at once")
    # On legs and their ends.
    a, b = legs[int(rng.integers(len(legs)))]
    H = np.vstack([mids[:6], a[:4], b[:4]])
    mon.true("finite", np.isfinite(s.calculate_solution_velocity(points=H)).all(), "on the lattice")
    # Far upstream and aside there is the freestream.
    d = np.array([-1.0, 0, 0]) * 1e4 * size + rng.normal(size=(3, 3)) * size
    mon.close("far", s.calculate_solution_velocity(points=ctr + d), np.tile(f.Vinf, (3, 1)), 1e-4, np.linalg.norm(f.Vinf))
    streamlines(case, rng, mon, s, f, legs, 25, 0.02)
    n, dt = int(rng.integers(1, 9)), float(choice(rng, [1e-3, 0.007, 0.05, 0.3])) * size / max(np.linalg.norm(f.Vinf), 1e-9)
    r = int(rng.integers(3))
    if r == 0:
        ps.functions.calculate_streamlines(s, num_steps=n, delta_time=dt)
        streamlines(case, rng, mon, s, f, legs, n, dt)
    elif r == 1:
        ps.functions.calculate_streamlines(s, num_steps=n)
        streamlines(case, rng, mon, s, f, legs, n, 0.02)
    else:
        ps.functions.calculate_streamlines(s, delta_time=dt)
        streamlines(case, rng, mon, s, f, legs, 25, dt)


def streamlines(case, rng, mon, s, f, legs, n, dt):
    seeds = []
    for a in f.airplanes:
        for w in a.wings:
            for p in w.panels[-1]:
                seeds.append((np.asarray(p.back_left_vertex, float) + p.back_right_vertex) / 2)
    seeds = np.array(seeds)
    S = np.asarray(s.streamline_points, float)
    if not mon.true("streamline-shape", S.shape == (n + 1, len(seeds), 3), f"shape {S.shape} for {n} increments and {len(seeds)} trailing-edge panels"):
        return
    size = np.abs(seeds).max() + 1e-9
    # One per trailing-edge panel; their order is not part of the property.
    used = set()
    for x in S[0]:
        d = np.abs(seeds - x).max(1)
        d[list(used)] = np.inf
        j = int(np.argmin(d))
        used.add(j)
        mon.close("streamline-start", x, seeds[j], 1e-9, size)
    g = np.asarray(s.seed_points, float)
    mon.close("seeds", g, S[0], 1e-12, size)
    scale = np.abs(np.diff(S, axis=0)).max() / dt
    for t in range(n):
        v = np.asarray(s.calculate_solution_velocity(points=S[t].copy()), float)
        mon.close("streamline-advance", (S[t + 1] - S[t]) / dt, v, 1e-8, scale + size / dt * 1e-8, f"increment {t}")
    for t in {0, n - 1, n // 2}:
        ok = ~near(legs, S[t])
        want, worst = f.field(S[t])
        for i in np.flatnonzero(ok):
            mon.close("streamline-field", (S[t + 1, i] - S[t, i]) / dt, want[i], 1e-6, worst[i] + size / dt * 1e-8, f"increment {t} of streamline {i}")
