"""C05: wing meshes vs an independent construction from the specification."""
import copy

import numpy as np

import ref
from models_lib import integer_wing, is_plain, own_airfoil, build_airplane, build_wing, choice, corners, DB_AIRFOILS, gen_wing, R

PROP = "C05"
LEVEL_RULE = (
    "A case is one random wing specification (sections, airfoils incl. database and custom ones, spacings, twist, "
    "sweep, dihedral, control surfaces, orientation, symmetry, position) meshed by the real code; non-trivial when it has "
    "a panel. Every panel corner, label and index is compared with an independently constructed mesh."
)
REQUIRED = ["vertices", "panel-counts", "shared-corners", "labels", "indices", "orientation", "position-independent", "attributes-kept", "camber-analytic"]
ASSUMPTIONS = ["adjacent sections with different control-surface deflection do not meet along their common section (documented geometry of control surfaces)",
               "sections extend along the wing plane's normal"]
VARIANTS = [
    dict(ncw=1, nsw=1, nsec=2, symmetric=False, control="none"),
    dict(ncw=1, nsw=1, nsec=2, symmetric=True, control="none"),
    dict(symmetric=False, control="none"),
    dict(symmetric=True, control="none"),
    dict(symmetric=True, control="symmetric"),
    dict(symmetric=True, control="asymmetric", nsec=3),
    dict(symmetric=False, control="mixed", nsec=4, deflect=60.0),
    dict(symmetric=True, control="mixed", nsec=5),
    dict(orient="tilt"),
    dict(orient="vertical"),
    dict(orient="incidence"),
    dict(orient="fin", control="mixed"),
    dict(orient="tilt", symmetric=True, control="mixed"),
    dict(sect_normals=True, nsec=4),
    dict(orient="general"),
    dict(orient="general", symmetric=True, control="mixed"),
    dict(orient="incidence", sect_normals=True, control="mixed"),
    dict(orient="general", sect_normals=True, nsec=4, control="mixed"),
    dict(ncw=12, nsw=9, nsec=3),
    dict(ncw=30, nsw=2, nsec=2),
    dict(ncw=2, nsw=45, nsec=2),
    dict(ncw=2, nsw=1, nsec=14),
    dict(spacing="uniform", twist=25.0),
    dict(spacing="cosine", twist=25.0),
    dict(size=0.01),
    dict(size=50.0),
    dict(airfoils=["naca0012", "e387", "s1223", "naca6409"]),
    dict(airfoils=DB_AIRFOILS, control="mixed"),
    dict(planform="rect", camber=False, control="none"),
]


def make_cases(tier):
    reps = 20 if tier == "quick" else 150
    return [dict(variant=v, rep=r) for r in range(reps) for v in range(len(VARIANTS))]


def custom_airfoil(rng):
    """A user outline: cambered, given as raw coordinates, from TE over the upper side."""
    x = 0.5 * (1 + np.cos(np.linspace(0, np.pi, 60)))
    c = R(rng, -0.1, 0.1)
    t = R(rng, 0.06, 0.2)
    cam = lambda x: 4 * c * x * (1 - x)
    th = lambda x: t * (1.48 * np.sqrt(x) - 0.63 * x - 1.758 * x**2 + 1.4215 * x**3 - 0.5135 * x**4)
    up = np.column_stack([x, cam(x) + th(x)])
    lo = np.column_stack([x[::-1], cam(x[::-1]) - th(x[::-1])])[1:]
    return dict(name="user section", coordinates=np.vstack([up, lo]).tolist(), repanel=choice(rng, [True, False]), n_points_per_side=int(choice(rng, [40, 150])))


def make_spec(rng, variant, rep):
    w = gen_wing(rng, **VARIANTS[variant])
    if rng.integers(5) == 0 and is_plain(w) and "size" not in VARIANTS[variant]:
        integer_wing(w)
    if rep % 4 == 3:
        w["sections"][int(rng.integers(len(w["sections"])))]["airfoil"] = custom_airfoil(rng)
        if rng.integers(2):
            for s in w["sections"]:
                s["airfoil"] = own_airfoil(rng)
    # The tip's own spanwise count has no effect; neither may anything else of it.
    w["sections"][-1]["num_spanwise_panels"] = int(rng.integers(1, 9))
    return w


def run_case(case, rng, mon):
    w = make_spec(rng, case["variant"], case["rep"])
    mon.sample = w
    wing = build_wing(w)
    check(w, wing, mon)
    # The mesh does not depend on how the wing is positioned, nor on being part of an airplane.
    w2 = copy.deepcopy(w)
    d = rng.uniform(-7, 7, 3)
    for k, x in zip(("x_le", "y_le", "z_le"), d):
        w2[k] += float(x)
    c1 = corners(wing)
    air = build_airplane(dict(wings=[w2], x_ref=1.0))
    L = max(np.abs(c1).max(), 10)
    mon.close("position-independent", corners(air.wings[0]), c1 + d, 1e-12, L)


def check(w, wing, mon):
    secs = w["sections"]
    nr, half = w["num_chordwise_panels"], sum(s["num_spanwise_panels"] for s in secs[:-1])
    nc = half * (2 if w["symmetric"] else 1)
    mon.true("panel-counts", np.shape(wing.panels) == (nr, nc) and wing.num_panels == nr * nc and wing.num_spanwise_panels == nc and wing.num_chordwise_panels == nr,
             lambda: f"{np.shape(wing.panels)} panels, {wing.num_panels}, instead of {(nr, nc)}")
    if np.shape(wing.panels) != (nr, nc):
        return
    mon.true("panel-counts", len({id(p) for p in np.ravel(wing.panels)}) == nr * nc, "the same panel twice")
    mon.state(nr, nc, w["symmetric"], len(secs))
    mcls = [np.array(s.airfoil.mcl_coordinates, float) for s in wing.wing_cross_sections]
    got = corners(wing)
    want = ref.wing_corners(w, mcls)
    chord = max(s["chord"] for s in secs)
    L = np.abs(got - got[0, 0, 0]).max()
    root = np.array([w["x_le"], w["y_le"], w["z_le"]])
    flapped = any(s.get("control_surface_deflection", 0.0) for s in secs[:-1])
    # Behind a deflected surface the camber line is re-sampled through its outline; allow that.
    mon.close("vertices", got - root, want - root, 1e-9 if not flapped else 1e-8, L)
    # Adjacent panels share their corners unless a control surface starts or ends between them.
    mon.true("shared-corners", np.array_equal(got[:-1, :, 2], got[1:, :, 0]) and np.array_equal(got[:-1, :, 3], got[1:, :, 1]), "rows do not share corners")
    col = np.concatenate([[i] * s["num_spanwise_panels"] for i, s in enumerate(secs[:-1])])
    side = np.ones(half)
    if w["symmetric"]:
        col, side = np.concatenate([col[::-1], col]), np.concatenate([-side, side])

    def defl(j):
        s = secs[col[j]]
        d = s.get("control_surface_deflection", 0.0)
        if side[j] < 0 and s.get("control_surface_type", "symmetric") == "asymmetric":
            d = -d
        return (d, s.get("control_surface_hinge_point", 0.75) if d else None)

    for j in range(nc - 1):
        if defl(j) == defl(j + 1):
            mon.close("shared-corners", got[:, j, [1, 3]] - root, got[:, j + 1, [0, 2]] - root, 1e-12, L, msg=f"columns {j} and {j + 1}")
        else:
            mon.close("shared-corners", got[0, j, 1] - root, got[0, j + 1, 0] - root, 1e-12, L, msg="leading edge")
    n = np.array(w.get("unit_normal_vector") or [0.0, 1.0, 0.0])
    cw = np.array(w.get("unit_chordwise_vector") or [1.0, 0.0, 0.0])
    up = np.cross(cw, n)
    for i in range(nr):
        for j in range(nc):
            p = wing.panels[i, j]
            ok = (bool(p.is_leading_edge) == (i == 0), bool(p.is_trailing_edge) == (i == nr - 1), bool(p.is_left_edge) == (j == 0), bool(p.is_right_edge) == (j == nc - 1))
            mon.true("labels", all(ok) and None not in (p.is_leading_edge, p.is_trailing_edge, p.is_left_edge, p.is_right_edge), lambda: f"panel {i},{j} of {nr}x{nc}: LE/TE/left/right {ok}")
            mon.true("indices", p.local_chordwise_position == i and p.local_spanwise_position == j, lambda: f"panel {i},{j} says {p.local_chordwise_position},{p.local_spanwise_position}")
            # On a fin raised right up over the plane, the side its sections' extent turns to is the upper one.
            e = got[0, j, 1] - got[0, j, 0]
            side_up = up if e @ n > 0.5 * np.linalg.norm(e) else np.cross(cw, e)
            mon.true("orientation", float(np.dot(p.unit_normal, side_up)) > 0 or abs(defl(j)[0]) > 45, lambda: f"panel {i},{j} normal {p.unit_normal} against up {side_up}")
    pn = (got[..., 1, :] - got[..., 0, :]) @ n
    le = got[0, :, 1] - got[0, :, 0]
    if (le @ n > 0.5 * np.linalg.norm(le, axis=1)).all() and (not any(s.get("unit_normal_vector") for s in secs[1:]) or "unit_normal_vector" in w):
        mon.true("orientation", (pn > -1e-12).all() and pn.sum() > 0, lambda: f"panels do not run from tip to tip along the normal {pn}")
    # Built-in definition of the sections of a four-digit airfoil, from the analytic camber line.
    for s, mcl in zip(secs, mcls):
        a = s["airfoil"]
        if isinstance(a, str) and a.lower().startswith("naca") and len(a) == 8:
            x, y = ref.naca4_mcl(a[4:])
            mon.close("camber-analytic", mcl[:, 1], np.interp(mcl[:, 0], x, y), 0.015, 1.0)
    xs = wing.wing_cross_sections
    for s, x in zip(secs, xs):
        keep = all(getattr(x, k) == s[k] for k in ("chord", "twist", "num_spanwise_panels", "spanwise_spacing"))
        keep &= all(getattr(x, k) == s[k] for k in s if k.startswith("control_surface"))
        keep &= np.array_equal(x.leading_edge, [s["x_le"], s["y_le"], s["z_le"]])
        mon.true("attributes-kept", keep, "a section's attributes differ from those given")
    # Trailing-edge points of an undeflected wing lie a chord behind the leading edge along the section.
    if not flapped:
        for i, s in enumerate(secs):
            _, x, u = ref.section_frame(s, w)
            j = nc - half + sum(q["num_spanwise_panels"] for q in secs[:i])
            le = got[0, j, 0] if i < len(secs) - 1 else got[0, -1, 1]
            te = got[-1, j, 2] if i < len(secs) - 1 else got[-1, -1, 3]
            e = mcls[i][-1] - mcls[i][0]
            mon.close("vertices", te - le, s["chord"] * (e[0] * x + e[1] * u), 1e-9, chord)
