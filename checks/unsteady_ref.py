"""Observation of solved unsteady models, step by step."""
import numpy as np

import ref
from common import Abort
from models_lib import choice, gen_unsteady, R
from steady_ref import Obs

# Generator arguments of the unsteady model classes.
VARIANTS = [
    dict(nair=1, nwings=1, ncw=1, nsw=1, nsec=2, symmetric=False, static=True),
    dict(nair=1, nwings=1, nsec=2, static=True),
    dict(nair=1, nwings=1, symmetric=True),
    dict(nair=1, nwings=1, symmetric=False, nsec=3),
    dict(nair=1, nwings=2),
    dict(nair=2, nwings=1),
    dict(nair=2, nwings=2, nsw=1),
    dict(nair=3, nwings=1, nsw=1),
    dict(nair=1, nwings=1, motion_kw=dict(what=("op",), p=1.0)),
    dict(nair=1, nwings=1, motion_kw=dict(what=("wing",), p=1.0)),
    dict(nair=1, nwings=1, motion_kw=dict(what=("ref",), p=1.0)),
    dict(nair=1, nwings=1, motion_kw=dict(what=("sections",), p=1.0, amps=(35.0, 20.0, 35.0)), nsec=4),
    dict(nair=1, nwings=2, orients=("std", "vertical")),
    dict(nair=1, nwings=2, orients=("tilt", "incidence")),
    dict(nair=1, nwings=2, orients=("std", "fin")),
    dict(nair=1, nwings=1, control="mixed", symmetric=True),
    dict(nair=1, nwings=2, orients=("general",), nsw=1),
    dict(nair=1, nwings=1, orients=("general",), sect_normals=True, control="mixed", symmetric=True),
    dict(nair=1, nwings=1, steps=1),
    dict(nair=1, nwings=1, steps=2),
    dict(nair=1, nwings=1, steps=14, ncw=1),
    dict(nair=1, nwings=1, ncw=5, nsw=3, steps=4),
    dict(nair=1, nwings=1, size=0.5),
    dict(nair=1, nwings=1, size=0.003),
    dict(nair=1, nwings=1, size=8.0, beta=18.0, alpha=-9.0),
    dict(nair=2, nwings=1, static=True, nsw=2),
    dict(nair=1, nwings=1, steps=40, ncw=1, nsw=1, nsec=2),
    dict(nair=2, nwings=1, steps=24, ncw=1, nsw=1, nsec=2, symmetric=False),
    dict(nair=1, nwings=1, beta=50.0, alpha=65.0),
    dict(nair=1, nwings=1, steps=110, ncw=1, nsw=1, nsec=2, symmetric=False),
    dict(nair=5, nwings=1, steps=4, ncw=1, nsw=1, nsec=2),
    dict(nair=1, nwings=5, nsw=1, ncw=1, steps=4),
    dict(nair=1, nwings=1, ncw=8, nsw=7, nsec=2, steps=3),
    dict(nair=1, nwings=1, nsec=8, ncw=2, nsw=1, steps=4),
    dict(nair=1, nwings=1, ncw=16, nsw=4, nsec=2, steps=3),
    dict(nair=4, nwings=1, nsw=1, nsec=2, steps=3),
    dict(nair=1, nwings=3, nsw=1, steps=4),
    dict(nair=1, nwings=1, fast=1e-5, motion_kw=dict(p=1.0)),
    dict(nair=2, nwings=1, nsw=1, fast=1e-3),
]


def gen(variant, rng, free=None):
    kw = dict(VARIANTS[variant])
    nair = kw.pop("nair")
    return gen_unsteady(rng, nair=nair, free=free, **kw)


class Step(Obs):
    """Observables of one time step of a run solver."""

    def __init__(self, solver, k):
        sp = solver.steady_problems[k]
        super().__init__(sp.airplanes, "ring")
        self.k, self.airplanes, self.opr = k, sp.airplanes, sp.operating_point
        self.op = dict(density=self.opr.density, velocity=self.opr.velocity, alpha=self.opr.alpha, beta=self.opr.beta)
        self.nu = float(self.opr.nu)
        self.Vinf = ref.freestream(self.op)
        g = lambda nm: np.array(getattr(solver, f"wake_ring_vortex_{nm}_list")[k], float)
        self.wG, self.wage = g("strengths"), g("ages")
        self.wake = np.stack([g(f"{a}_vertices") for a in ("front_left", "front_right", "back_left", "back_right")], 1).reshape(-1, 4, 3)
        # Rows of each wing's wake within the recorded arrays.
        self.wake_slices, n = [], 0
        for ia, w, off, nr, nc in self.wing_slices:
            self.wake_slices.append((n, k, nc))
            n += k * nc
        self.num_wake = n

    def field(self, pts, detail=False):
        """Total velocity at points (N,3)."""
        v = np.tile(self.Vinf, (len(pts), 1))
        worst = np.full(len(pts), np.linalg.norm(self.Vinf))
        for rings, G, age in ((self.ring, self.G, None), (self.wake, self.wG, self.wage)):
            if len(rings):
                e = ref.ring_velocity(pts, *[rings[:, i] for i in range(4)], G, age, self.nu)
                v = v + e.sum(1)
                worst = np.maximum(worst, np.abs(e).max((1, 2)))
        return (v, worst) if detail else v

    def legs(self):
        """Corner positions of the bound legs: (n, 3 legs front/left/right, 2 ends, 3)."""
        r = self.ring
        return np.stack([np.stack([r[:, 1], r[:, 0]], 1), np.stack([r[:, 0], r[:, 2]], 1), np.stack([r[:, 3], r[:, 1]], 1)], 1)

    def singular(self, pts):
        """Points extremely close to, but not on, a leg without a core."""
        size = np.abs(self.C).max() * 1e-14
        fresh = self.wake[self.wage == 0] if len(self.wake) else self.wake
        if self.nu == 0 and len(self.wake):
            fresh = self.wake
        for rings in (self.ring, fresh):
            for i, j in ((1, 0), (0, 2), (2, 3), (3, 1)):
                a, b = rings[:, i], rings[:, j]
                e = b - a
                n = np.linalg.norm(e, axis=1)
                ok = n > 0
                a, e, n = a[ok], e[ok] / n[ok, None], n[ok]
                r = pts[:, None] - a[None]
                s = (r * e).sum(-1)
                d = np.linalg.norm(r - s[..., None] * e, axis=-1)
                if ((d > 1e-9 * n + size) & (d < 2e-6 * n) & (s > -0.2 * n) & (s < 1.2 * n)).any():
                    return True
        return False


def own_velocity(cur, prev, dt):
    return np.zeros_like(cur) if prev is None else (cur - prev) / dt


def expected_loads(o, prev, dt, refs):
    """Geometry-axis panel forces and moments of a step, and a force scale."""
    up = np.zeros(o.n)
    for _, w, off, nr, nc in o.wing_slices:
        idx = off + np.arange(nr * nc).reshape(nr, nc)
        if nr > 1:
            up[idx[1:].ravel()] = o.G[idx[:-1].ravel()]
    S = np.stack([o.G - up, o.G, o.G], 1)
    legs = o.legs()
    mid = legs.mean(2)
    pm = prev.legs().mean(2) if prev is not None else None
    pts = mid.reshape(-1, 3)
    if o.singular(pts):
        raise Abort("bound legs a hair's breadth apart")
    U, worst = o.field(pts, detail=True)
    U = U.reshape(mid.shape) - own_velocity(mid, pm, dt)
    vec = legs[:, :, 1] - legs[:, :, 0]
    rho = o.op["density"]
    f = rho * S[..., None] * np.cross(U, vec)
    dG = o.G - (prev.G if prev is not None else 0.0)
    # Positive rings push flow along the normal, so lifting panels have negative circulation.
    fu = -rho * (dG * o.q["area"] / dt)[:, None] * o.q["normal"]
    R_ = refs[o.airplane_of]
    F = f.sum(1) + fu
    M = np.cross(mid - R_[:, None], f).sum(1) + np.cross(o.q["colloc"] - R_, fu)
    sc = max(np.abs(rho * S[..., None] * np.linalg.norm(U, axis=-1)[..., None] * np.linalg.norm(vec, axis=-1)[..., None]).max(), np.abs(fu).max())
    return F, M, sc
