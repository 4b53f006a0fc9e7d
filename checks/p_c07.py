"""C07: reference and derived geometric quantities vs their definitions."""
import copy

import numpy as np

import ref
from models_lib import add_motion, build_airplane, build_movement, choice, corners, gen_airplane, gen_unsteady, R
from transform import scale_lengths, translate

PROP = "C07"
LEVEL_RULE = (
    "A case is one random airplane specification (or every airplane of every time step of a random movement); all areas, "
    "spans, chords, reference dimensions, panel and section quantities read from the objects are compared with their "
    "definitions evaluated from panel corners and the specification. Non-trivial when it has a panel."
)
REQUIRED = ["panel-area", "panel-normal", "panel-directions", "panel-dimensions", "panel-points", "projected-area", "wetted-area", "span", "mean-chord",
            "mean-aerodynamic-chord", "planform-exact", "airplane-refs", "user-refs", "moved", "section-lines", "scaled"]
V = [
    dict(), dict(symmetric=True), dict(symmetric=False), dict(planform="rect"), dict(ncw=1, nsw=1, nsec=2, symmetric=False),
    dict(nsec=4, control="mixed"), dict(nsec=4, sect_normals=True), dict(nwings=2), dict(nwings=3, symmetric=True),
    dict(orients=("tilt",)), dict(orients=("vertical",)), dict(orients=("incidence",)), dict(orients=("general",)), dict(nwings=3, orients=("std", "fin")), dict(orients=("general", "tilt"), sect_normals=True, nsec=3, nwings=2), dict(orients=("incidence",), sect_normals=True, control="mixed"), dict(orients=("incidence",), symmetric=True, twist=20),
    dict(ncw=6, nsw=6), dict(ncw=25, nsw=1, nsec=2, nwings=1), dict(ncw=1, nsw=40, nsec=2, nwings=1), dict(ncw=1, nsw=1, nsec=12, nwings=1), dict(ncw=1, nsw=1, nwings=7), dict(camber=False, twist=0, control="none"), dict(camber=False, twist=0, control="none", symmetric=True, nsec=4), dict(camber=False, twist=0, control="none", symmetric=False, nsec=2, planform="rect"),
]


def make_cases(tier):
    reps = 16 if tier == "quick" else 100
    out = [dict(kind="static", variant=v, rep=r) for r in range(reps) for v in range(len(V))]
    return out + [dict(kind="moving", rep=r) for r in range(6 * reps)]


def run_case(case, rng, mon):
    if case["kind"] == "moving":
        m = gen_unsteady(rng, nair=int(rng.integers(1, 3)))
        mon.sample = m
        mv = build_movement(m)
        for spec, steps in zip(m["airplanes"], mv.airplanes):
            for a in steps:
                check(spec, a, mon)
        return
    kw = V[case["variant"]]
    size = float(choice(rng, [0.1, 1.0, 20.0]))
    spec = gen_airplane(rng, ref=bool(case["rep"] % 2), size=size, origin=tuple(rng.uniform(-5, 5, 3)), **kw)
    mon.sample = spec
    a = build_airplane(spec)
    check(spec, a, mon)
    if kw.get("camber") is False:
        for w, s in zip(a.wings, spec["wings"]):
            n = np.array(s.get("unit_normal_vector") or [0, 1.0, 0])
            le = np.array([[x["x_le"], x["y_le"], x["z_le"]] for x in s["sections"]]) @ n
            c = np.array([x["chord"] for x in s["sections"]])
            b = np.diff(le)
            k = 2 if s["symmetric"] else 1
            S = k * np.sum(b * (c[1:] + c[:-1]) / 2)
            mon.close("planform-exact", w.projected_area, S, 1e-9)
            mon.close("planform-exact", w.span, k * (le[-1] - le[0]), 1e-12)
            y = np.linspace(0, 1, 4001)
            I = sum(k * bi * np.mean(((c1 + (c2 - c1) * (y[1:] + y[:-1]) / 2) ** 2)) for bi, c1, c2 in zip(b, c, c[1:]))
            mon.close("planform-exact", w.mean_aerodynamic_chord, I / S, 1e-6)
    # Moving or scaling everything.
    m = dict(airplanes=[spec], op={})
    d = rng.uniform(-9, 9, 3) * size
    b = build_airplane(translate(m, d)["airplanes"][0])
    f = R(rng, 0.05, 30)
    s = build_airplane(scale_lengths(m, f)["airplanes"][0])
    for w, x, y in zip(a.wings, b.wings, s.wings):
        for q, e in (("span", 1), ("projected_area", 2), ("wetted_area", 2), ("standard_mean_chord", 1), ("mean_aerodynamic_chord", 1)):
            mon.close("moved", getattr(x, q), getattr(w, q), 1e-10, msg=q)
            mon.close("scaled", getattr(y, q), getattr(w, q) * f ** e, 1e-9, msg=q)
    for q in ("s_ref", "c_ref", "b_ref"):
        mon.close("moved", getattr(b, q), getattr(a, q), 1e-10, msg=q)


def check(spec, a, mon):
    mon.state(len(a.wings), a.num_panels)
    for w, ws in zip(a.wings, spec["wings"]):
        C = corners(w)
        q = ref.panel_quantities(C)
        P = w.panels
        get = lambda f: np.array([[f(p) for p in row] for row in P], float)
        L = np.abs(C).max()
        s = np.linalg.norm(C[0, 0, 0] - C[0, 0, 3])
        A = q["area"].max()
        mon.close("panel-area", get(lambda p: p.area), q["area"], 1e-9, A)
        mon.close("panel-normal", get(lambda p: p.unit_normal), q["normal"], 1e-7)
        mon.close("panel-directions", get(lambda p: p.unit_chordwise), q["chordwise"], 1e-7)
        mon.close("panel-directions", get(lambda p: p.unit_spanwise), q["spanwise"], 1e-7)
        mon.close("panel-dimensions", get(lambda p: p.average_chord), q["avg_chord"], 1e-9, s)
        mon.close("panel-dimensions", get(lambda p: p.average_span), q["avg_span"], 1e-9, s)
        mon.close("panel-points", get(lambda p: p.collocation_point), q["colloc"], 1e-12, L)
        mon.close("panel-points", get(lambda p: p.front_left_vortex_vertex), q["vfl"], 1e-12, L)
        mon.close("panel-points", get(lambda p: p.front_right_vortex_vertex), q["vfr"], 1e-12, L)
        fl, fr, bl, br = (C[..., i, :] for i in range(4))
        for nm, e in (("right_leg", fr - br), ("front_leg", fl - fr), ("left_leg", bl - fl), ("back_leg", br - bl)):
            mon.close("panel-points", get(lambda p: getattr(p, nm)), e, 1e-12, L, nm)
        n = np.array(w.unit_normal_vector, float)
        cw = np.array(w.unit_chordwise_vector, float)
        up = np.cross(cw, n)
        proj = np.abs((q["normal"] @ up) * q["area"])
        mon.close("projected-area", get(lambda p: p.calculate_projected_area(up)), proj, 1e-8, A)
        v = ref.rotate(up, np.array([0.3, 0.5, -0.8]), 47.0)
        mon.close("projected-area", get(lambda p: p.calculate_projected_area(v)), np.abs(q["normal"] @ v) * q["area"], 1e-8, A)
        mon.close("projected-area", w.projected_area, proj.sum(), 1e-9)
        mon.close("wetted-area", w.wetted_area, q["area"].sum(), 1e-9)
        k = 2 if w.symmetric else 1
        le = np.array([x.leading_edge for x in w.wing_cross_sections]) @ n
        span = k * abs(le[-1] - le[0])
        mon.close("span", w.span, span, 1e-10)
        mon.close("mean-chord", w.standard_mean_chord, proj.sum() / span, 1e-9)
        c = np.array([x.chord for x in w.wing_cross_sections])
        mac = k * np.sum(np.abs(np.diff(le)) * (c[1:] ** 2 + c[1:] * c[:-1] + c[:-1] ** 2) / 3) / proj.sum()
        mon.close("mean-aerodynamic-chord", w.mean_aerodynamic_chord, mac, 1e-9)
        mon.true("span", w.num_panels == P.size, "panel count")
        mon.close("section-lines", w.unit_up_vector, up, 1e-12)
        for x in w.wing_cross_sections:
            xn = np.array(x.unit_normal_vector, float)
            xc = ref.rotate(cw, xn, x.twist)
            mon.close("section-lines", x.unit_chordwise_vector, xc, 1e-10)
            mon.close("section-lines", x.unit_up_vector, np.cross(xc, xn), 1e-10)
            mon.close("section-lines", x.trailing_edge, x.leading_edge + x.chord * xc, 1e-10, np.abs(x.leading_edge).max() + x.chord)
    w0 = a.wings[0]
    for nm, e in (("s_ref", w0.projected_area), ("c_ref", w0.mean_aerodynamic_chord), ("b_ref", w0.span)):
        if nm in spec:
            mon.true("user-refs", getattr(a, nm) == spec[nm], lambda: f"{nm} is {getattr(a, nm)}, given {spec[nm]}")
        else:
            mon.close("airplane-refs", getattr(a, nm), e, 1e-12, msg=nm)
    mon.true("airplane-refs", a.num_panels == sum(w.panels.size for w in a.wings), "panel count")
    mon.close("airplane-refs", a.xyz_ref, [a.x_ref, a.y_ref, a.z_ref], 0.0)
