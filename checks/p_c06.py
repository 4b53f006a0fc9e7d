"""C06: symmetric wings are mirror images, controls deflect per half as specified."""
import copy

import numpy as np

import ref
from models_lib import integer_wing, is_plain, build_wing, choice, corners, gen_airplane, gen_op, gen_wing, R, run_steady, totals

PROP = "C06"
LEVEL_RULE = (
    "A case is one random symmetric wing or airplane specification; wings are compared panel by panel with their own "
    "reflection and with one-sided wings carrying each half's deflections; airplanes without asymmetric deflection are "
    "solved without sideslip and their lateral loads examined. Non-trivial when it has panels on both halves."
)
REQUIRED = ["mirror-image", "right-half", "left-half", "root-closed", "asymmetric-opposes", "lateral-loads", "deflection-at-hinge"]
ASSUMPTIONS = ["with an asymmetric deflection on the root section the two halves meet along the undeflected part of the root only"]
V = [
    dict(control="none"), dict(control="symmetric"), dict(control="asymmetric"), dict(control="mixed", nsec=4),
    dict(control="mixed", orient="tilt"), dict(control="mixed", orient="vertical"), dict(control="symmetric", orient="incidence"),
    dict(control="mixed", orient="general"), dict(control="mixed", orient="general", sect_normals=True), dict(control="symmetric", orient="incidence", sect_normals=True),
    dict(control="mixed", sect_normals=True, nsec=4), dict(control="asymmetric", ncw=1, nsw=1, nsec=2),
    dict(control="symmetric", ncw=1, nsw=1, nsec=2), dict(control="mixed", ncw=9, nsec=5), dict(control="asymmetric", deflect=80.0, nsec=3),
    dict(control="mixed", ncw=24, nsec=2), dict(control="mixed", ncw=2, nsw=40, nsec=2), dict(control="mixed", ncw=1, nsw=1, nsec=12),
]


def make_cases(tier):
    reps = 20 if tier == "quick" else 150
    out = [dict(kind="mesh", variant=v, rep=r) for r in range(reps) for v in range(len(V))]
    out += [dict(kind=k, variant=v, rep=r) for r in range(reps // 2) for v in range(6) for k in ("horseshoe", "ring")]
    return out


def run_case(case, rng, mon):
    if case["kind"] == "mesh":
        return mesh_case(case, rng, mon)
    kw = [dict(control="none"), dict(control="symmetric"), dict(control="none", orients=("std", "incidence")), dict(control="symmetric", nsec=3),
          dict(control="symmetric", orients=("incidence",), sect_normals=True) if case["rep"] % 2 else dict(control="asymmetric", deflect=0.0), dict(control="symmetric", ncw=1, nsw=1, nsec=2)][case["variant"]]
    a = gen_airplane(rng, symmetric=True, **kw)
    y = R(rng, -3, 3) if rng.integers(2) else 0.0
    for w in a["wings"]:
        w["y_le"] = y
    a["y_ref"] = y
    m = dict(airplanes=[a], op=gen_op(rng, beta=0.0))
    mon.sample = m
    s = run_steady(m, case["kind"])
    from steady_ref import Obs, nearly_singular
    from common import Abort

    o = Obs(s.airplanes, case["kind"])
    if len(o.ring):
        mids = np.concatenate([(o.ring[:, i] + o.ring[:, j]) / 2 for i, j in ((1, 0), (0, 2), (3, 1))])
        if nearly_singular(o, mids):
            raise Abort("bound legs a hair's breadth apart")
    F, M, C, CM = totals(s.airplanes[0])
    pf = np.array([p.near_field_force_geometry_axes for p in o.panels], float)
    sF = np.abs(pf).sum()
    arm = np.abs(o.C).max()
    mon.trivial = not sF > 0
    mon.state(case["kind"], o.n)
    mon.close("lateral-loads", F[1], 0.0, 1e-7, sF, "side force")
    mon.close("lateral-loads", [M[0], M[2]], [0.0, 0.0], 1e-7, sF * arm, "rolling, yawing moment")
    mon.close("lateral-loads", [C[1], CM[0], CM[2]], [0.0] * 3, 1e-7, max(1.0, np.abs(C).max(), np.abs(CM).max()), "coefficients")


def mesh_case(case, rng, mon):
    w = gen_wing(rng, symmetric=True, **V[case["variant"]])
    if rng.integers(5) == 0 and is_plain(w):
        integer_wing(w)
    secs = w["sections"]
    mon.sample = w
    full = corners(build_wing(w))
    nr, nc = full.shape[:2]
    if not mon.true("mirror-image", nc % 2 == 0 and nc == 2 * sum(s["num_spanwise_panels"] for s in secs[:-1]), f"{nc} columns"):
        return
    mon.state(nr, nc, case["variant"])
    h = nc // 2
    left, right = full[:, :h], full[:, h:]
    n = np.array(w.get("unit_normal_vector") or [0.0, 1.0, 0.0])
    root = np.array([w["x_le"], w["y_le"], w["z_le"]])
    L = np.abs(full - root).max()

    def reflect(c):
        """Reflected columns, relabelled and stored outside in."""
        c = c - 2 * ((c - root) @ n)[..., None] * n
        return c[:, ::-1][:, :, [1, 0, 3, 2]]

    asym = [s.get("control_surface_type") == "asymmetric" and s.get("control_surface_deflection", 0.0) != 0 for s in secs[:-1]]
    col = np.concatenate([[i] * s["num_spanwise_panels"] for i, s in enumerate(secs[:-1])])
    same = ~np.array(asym)[col]
    R_of_left = reflect(left)
    if same.any():
        mon.close("mirror-image", R_of_left[:, same], right[:, same], 1e-12, L)
    # One-sided wings with each half's deflections.
    def one_sided(sign):
        v = copy.deepcopy(w)
        v["symmetric"] = False
        for s in v["sections"]:
            if sign < 0 and s.get("control_surface_type") == "asymmetric":
                s["control_surface_deflection"] = -s["control_surface_deflection"]
        return corners(build_wing(v))

    mon.close("right-half", right, one_sided(1), 1e-12, L)
    mon.close("left-half", left, reflect(one_sided(-1)), 1e-12, L)
    if not asym[0]:
        mon.close("root-closed", left[:, -1][:, [1, 3]], right[:, 0][:, [0, 2]], 1e-12, L)
    else:
        mon.close("root-closed", left[0, -1, 1], right[0, 0, 0], 1e-12, L)
    # Trailing edges go the documented way: positive is downwards on the right half.
    base = copy.deepcopy(w)
    for s in base["sections"]:
        s.pop("control_surface_deflection", None)
    fb = corners(build_wing(base))
    cw = np.array(w.get("unit_chordwise_vector") or [1.0, 0.0, 0.0])
    up = np.cross(cw, n)
    for j in range(nc):
        i = col[j - h] if j >= h else col[h - 1 - j]
        s = secs[i]
        d = s.get("control_surface_deflection", 0.0)
        if j < h and s.get("control_surface_type") == "asymmetric":
            d = -d
        hinge = s.get("control_surface_hinge_point", 0.75)
        for k in (2, 3):
            move = full[-1, j, k] - fb[-1, j, k]
            if d == 0:
                mon.close("deflection-at-hinge", move, np.zeros(3), 1e-12, L)
            elif abs(d) < 60 and (case["variant"] != 7):
                mon.true("deflection-at-hinge", np.sign(move @ up) == -np.sign(d), lambda: f"column {j} deflects {d}, trailing edge moves by {move} (up {up})")
        if asym[i] and j >= h:
            mir = reflect(full)[-1, j, 2] - reflect(fb)[-1, j, 2]
            mv = full[-1, j, 2] - fb[-1, j, 2]
            mon.true("asymmetric-opposes", (mir @ up) * (mv @ up) < 0 or case["variant"] in (7, 11), lambda: f"column {j}: halves move {mv}, {mir}")
        # Points ahead of the hinge stay.
        fr = np.linalg.norm(fb[:, j, 0] - fb[0, j, 0], axis=1) / max(1e-300, np.linalg.norm(fb[-1, j, 2] - fb[0, j, 0]))
        k = fr < hinge - 0.06
        mon.close("deflection-at-hinge", full[k, j, 0], fb[k, j, 0], 1e-2 if abs(d) else 1e-12, L)
