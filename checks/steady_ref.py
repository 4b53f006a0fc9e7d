"""Observation of solved steady models and their expected fields and loads."""
import numpy as np

import ref
from common import Abort
from models_lib import corners


class Obs:
    """Everything observable about the vortices of a list of airplanes."""

    def __init__(self, airplanes, kind):
        self.kind = kind
        self.airplane_of, self.wing_slices = [], []
        C, ring, G, hs, HG, hs_of = [], [], [], [], [], []
        self.panels = []
        n = 0
        for ia, a in enumerate(airplanes):
            for w in a.wings:
                c = corners(w)
                C.append(c.reshape(-1, 4, 3))
                self.wing_slices.append((ia, w, n, c.shape[0], c.shape[1]))
                for p in np.ravel(w.panels):
                    self.panels.append(p)
                    self.airplane_of.append(ia)
                    if p.ring_vortex is not None:
                        r = p.ring_vortex
                        ring.append([r.front_left_vertex, r.front_right_vertex, r.back_left_vertex, r.back_right_vertex])
                        G.append(r.strength)
                    if p.horseshoe_vortex is not None:
                        h = p.horseshoe_vortex
                        hs.append([h.left_leg.origin, h.right_leg.termination, h.left_leg.termination, h.right_leg.origin])
                        HG.append(h.strength)
                        hs_of.append(n)
                    n += 1
        self.n = n
        self.airplane_of = np.array(self.airplane_of)
        self.C = np.concatenate(C)
        self.q = ref.panel_quantities(self.C)
        self.ring = np.array(ring, float).reshape(-1, 4, 3)
        self.G = np.array(G, float)
        self.hs = np.array(hs, float).reshape(-1, 4, 3)
        self.HG = np.array(HG, float)
        self.hs_of = np.array(hs_of, int)

    def induced(self, pts, detail=False):
        v = np.zeros((len(pts), 3))
        worst = np.zeros(len(pts))
        if len(self.ring):
            e = ref.ring_velocity(pts, *[self.ring[:, i] for i in range(4)], self.G)
            v += e.sum(1)
            worst = np.maximum(worst, np.abs(e).max((1, 2)))
        if len(self.hs):
            e = ref.horseshoe_velocity(pts, *[self.hs[:, i] for i in range(4)], self.HG)
            v += e.sum(1)
            worst = np.maximum(worst, np.abs(e).max((1, 2)))
        return (v, worst) if detail else v


def nearly_singular(o, pts):
    """Whether some point lies extremely close to, but not on, a vortex leg (ill-conditioned)."""
    L = [(o.ring[:, i], o.ring[:, j]) for i, j in ((1, 0), (0, 2), (2, 3), (3, 1))] if len(o.ring) else []
    L += [(o.hs[:, i], o.hs[:, j]) for i, j in ((1, 0), (0, 2), (3, 1))] if len(o.hs) else []
    for a, b in L:
        e = b - a
        n = np.linalg.norm(e, axis=1)
        ok = n > 0
        a, e, n = a[ok], e[ok] / n[ok, None], n[ok]
        r = pts[:, None] - a[None]
        s = (r * e).sum(-1)
        d = np.linalg.norm(r - s[..., None] * e, axis=-1)
        size = np.abs(o.C).max() * 1e-14
        if ((d > 1e-9 * n + size) & (d < 2e-6 * n) & (s > -0.2 * n) & (s < 1.2 * n)).any():
            return True
    return False


def net_segments(o):
    """Physical bound segments with their net circulation and how each is shared among panels.

    Returns (start, end, strength, list of (panel, share)) arrays."""
    A, B, S, panel, share = [], [], [], [], []

    def seg(a, b, s, owners):
        A.append(a)
        B.append(b)
        S.append(s)
        panel.append(owners)

    if o.kind == "horseshoe":
        for k in range(o.n):
            seg(o.hs[k, 1], o.hs[k, 0], o.HG[k], [k])
        return np.array(A), np.array(B), np.array(S), panel
    for _, w, off, nr, nc in o.wing_slices:
        idx = off + np.arange(nr * nc).reshape(nr, nc)
        for i in range(nr):
            for j in range(nc):
                k = idx[i, j]
                up = o.G[idx[i - 1, j]] if i > 0 else 0.0
                seg(o.ring[k, 1], o.ring[k, 0], o.G[k] - up, [k])
                # Each ring's own side legs; coincident legs of neighbours add up to the net circulation.
                seg(o.ring[k, 0], o.ring[k, 2], o.G[k], [k])
                seg(o.ring[k, 3], o.ring[k, 1], o.G[k], [k])
    return np.array(A), np.array(B), np.array(S), panel


def expected_loads(o, op, refs, velocity_at=None):
    """Geometry-axis force and moment of each panel, by Kutta-Joukowski."""
    A, B, S, owners = net_segments(o)
    mid = (A + B) / 2
    if nearly_singular(o, mid):
        raise Abort("bound legs a hair's breadth apart (control surface gap)")
    U = o.induced(mid) + ref.freestream(op)
    f = op["density"] * S[:, None] * np.cross(U, B - A)
    F, M = np.zeros((o.n, 3)), np.zeros((o.n, 3))
    for k, own in enumerate(owners):
        for p in own:
            F[p] += f[k] / len(own)
            M[p] += np.cross(mid[k] - refs[o.airplane_of[p]], f[k] / len(own))
    return F, M, op["density"] * np.abs(S[:, None] * np.cross(U, B - A)).max()
