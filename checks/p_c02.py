"""C02: flow tangency and vortex placement of solved steady models."""
import numpy as np

import ref
import shipped
from models_lib import choice, gen_steady, run_steady, wing_panels
from steady_ref import Obs

PROP = "C02"
LEVEL_RULE = (
    "A case is one random well-posed steady model (airplane count, wing count, panel counts, orientation, control "
    "surfaces, sideslip and speed stratified) solved by one solver; non-trivial when it has a panel and a nonzero "
    "circulation. Distinct by case descriptor; every panel of every case is one tangency observation."
)
REQUIRED = ["tangency", "quarter-chord", "trailing-strength", "trailing-direction", "rings-connected"]
ASSUMPTIONS = ["trailing vortices of finite length count as semi-infinite when at least ten times as long as the wing's span and as the distance from its root to its tip"]
VARIANTS = [
    dict(nair=1, nwings=1, ncw=1, nsw=1, nsec=2, symmetric=False),
    dict(nair=1, nwings=1, ncw=1, nsw=1, nsec=2, symmetric=True),
    dict(nair=1, nwings=1, ncw=1),
    dict(nair=1, nwings=1, nsw=1, nsec=2),
    dict(nair=1, nwings=2),
    dict(nair=2, nwings=1),
    dict(nair=2, nwings=2),
    dict(nair=3, nwings=1),
    dict(nair=1, nwings=3),
    dict(nair=1, nwings=1, control="mixed", symmetric=True),
    dict(nair=1, nwings=1, control="asymmetric", symmetric=True, nsec=3),
    dict(nair=1, nwings=2, orients=("std", "vertical")),
    dict(nair=1, nwings=2, orients=("tilt", "incidence")),
    dict(nair=1, nwings=3, orients=("std", "fin")),
    dict(nair=1, nwings=1, sect_normals=True, nsec=4),
    dict(nair=1, nwings=2, orients=("general",)),
    dict(nair=2, nwings=1, orients=("general",), sect_normals=True, control="mixed"),
    dict(nair=1, nwings=1, orients=("incidence",), sect_normals=True),
    dict(nair=1, nwings=1, planform="rect", camber=False, twist=0),
    dict(nair=1, nwings=1, symmetric=True, beta=20.0, alpha=-8.0),
    dict(nair=1, nwings=1, beta=-35.0, alpha=25.0),
    dict(nair=1, nwings=2, beta=55.0, alpha=-62.0),
    dict(nair=2, nwings=1, beta=12.0, alpha=118.0),
    dict(nair=1, nwings=1, symmetric=True, beta=0.0, alpha=90.0),
    dict(nair=1, nwings=5, ncw=2, nsw=2),
    dict(nair=1, nwings=1, ncw=7, nsw=5, nsec=3),
    dict(nair=5, nwings=1, ncw=2, nsw=1),
    dict(nair=1, nwings=1, ncw=12, nsw=7, nsec=3),
    dict(nair=1, nwings=1, ncw=2, nsw=1, nsec=9),
    dict(nair=1, nwings=1, ncw=22, nsw=5, nsec=2),
    dict(nair=1, nwings=1, ncw=4, nsw=36, nsec=2),
]


def make_cases(tier):
    reps = 10 if tier == "quick" else 60
    return [dict(kind=k, variant=v, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for k in ("horseshoe", "ring")] + [dict(kind="shipped", script=list(x)) for x in shipped.STEADY]


def run_case(case, rng, mon):
    if case["kind"] == "shipped":
        for kind, s, _ in shipped.run(case["script"]):
            check(kind, s.airplanes, shipped.steady_op(s), mon)
        return
    m = gen_steady(rng, **VARIANTS[case["variant"]])
    mon.sample = m
    s = run_steady(m, case["kind"])
    check(case["kind"], s.airplanes, m["op"], mon)


def check(kind, airplanes, op, mon):
    o = Obs(airplanes, kind)
    V = op["velocity"]
    d = ref.freestream(op) / V
    mon.state(kind, o.n, len(o.wing_slices), tuple((r, c) for _, _, _, r, c in o.wing_slices))
    v, worst = o.induced(o.q["colloc"], detail=True)
    res = ((v + V * d) * o.q["normal"]).sum(1)
    mon.close("tangency", res, np.zeros(o.n), 1e-7, V + 1e-3 * worst.max(), lambda: f"panel residuals {res / V}")
    mon.trivial = not (np.abs(np.concatenate([o.G, o.HG])) > 0).any()
    L = np.linalg.norm(o.C[:, 2] - o.C[:, 0], axis=1).max()
    for _, w, off, nr, nc in o.wing_slices:
        sl = slice(off, off + nr * nc)
        idx = off + np.arange(nr * nc).reshape(nr, nc)
        if kind == "horseshoe":
            if not mon.true("quarter-chord", len(o.hs) == o.n and len(o.ring) == 0, f"{len(o.hs)} horseshoes, {len(o.ring)} rings for {o.n} panels"):
                return
            mon.close("quarter-chord", o.hs[sl, 0], o.q["vfl"][sl], 1e-12, L)
            mon.close("quarter-chord", o.hs[sl, 1], o.q["vfr"][sl], 1e-12, L)
            hs = o.hs[sl]
            mon.counts["trailing-strength"] += 1
            mon.counts["rings-connected"] += 1
        else:
            if not mon.true("quarter-chord", len(o.ring) == o.n, f"{len(o.ring)} rings for {o.n} panels"):
                return
            mon.close("quarter-chord", o.ring[sl, 0], o.q["vfl"][sl], 1e-12, L)
            mon.close("quarter-chord", o.ring[sl, 1], o.q["vfr"][sl], 1e-12, L)
            if nr > 1:
                mon.close("rings-connected", o.ring[idx[:-1].ravel(), 2], o.ring[idx[1:].ravel(), 0], 1e-12, L)
                mon.close("rings-connected", o.ring[idx[:-1].ravel(), 3], o.ring[idx[1:].ravel(), 1], 1e-12, L)
            te = idx[-1]
            # The trailing-edge ring closes a quarter chord behind the trailing edge, on the panel's side edges.
            mon.close("rings-connected", o.ring[te, 2], o.C[te, 2] + 0.25 * (o.C[te, 2] - o.C[te, 0]), 1e-12, L)
            mon.close("rings-connected", o.ring[te, 3], o.C[te, 3] + 0.25 * (o.C[te, 3] - o.C[te, 1]), 1e-12, L)
            sel = [int(np.where(o.hs_of == k)[0][0]) if (o.hs_of == k).any() else -1 for k in te]
            if not mon.true("trailing-strength", min(sel) >= 0 and ((o.hs_of >= off) & (o.hs_of < off + nr * nc)).sum() == nc,
                            "not exactly one trailing vortex per trailing-edge panel"):
                return
            mon.close("trailing-strength", o.HG[sel], o.G[te], 1e-12)
            mon.close("trailing-strength", o.hs[sel, 0], o.ring[te, 2], 1e-12, L)
            mon.close("trailing-strength", o.hs[sel, 1], o.ring[te, 3], 1e-12, L)
            hs = o.hs[sel]
        le = np.array([[x.x_le, x.y_le, x.z_le] for x in w.wing_cross_sections], float)
        size = max(w.span, np.linalg.norm(le[-1] - le[0]))
        for a, b in ((0, 2), (1, 3)):
            leg = hs[:, b] - hs[:, a]
            n = np.linalg.norm(leg, axis=1)
            mon.close("trailing-direction", leg / n[:, None], np.tile(d, (len(leg), 1)), 1e-10)
            mon.true("trailing-direction", (n > 10 * size).all(), lambda: f"trailing legs of length {n} for a wing {size} from root to tip")
