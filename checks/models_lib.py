"""Model specs (plain JSON-able dicts), their construction with the real classes, and
stratified random generators of them."""
import copy
import threading

import numpy as np

import pterasoftware as ps

AIRFOILS = ["naca2412", "naca0012", "naca4415", "naca6409", "naca0008", "NACA2412", "naca1408"]
DB_AIRFOILS = ["e387", "s1223", "clarky", "goe387", "mh45", "ag03"]


# ------------------------------------------------------------------ construction
# While a model with shared parts is built (by this thread): its airfoils and direction vectors so far.
BUILD = threading.local()


class sharing:
    """Sections of one model hold the same airfoil and vector objects, as in hand-written scripts, if it says so."""

    def __init__(self, m):
        self.m = m

    def __enter__(self):
        BUILD.pool = {} if self.m.get("share") else None

    def __exit__(self, *_):
        BUILD.pool = None


def pooled(key, make):
    pool = getattr(BUILD, "pool", None)
    if pool is None:
        return make()
    k = repr(key)
    if k not in pool:
        pool[k] = make()
    return pool[k]


def build_vector(v):
    return pooled(("vector", v), lambda: np.array(v))


def build_airfoil(a):
    return pooled(("airfoil", a), lambda: make_airfoil(a))


def make_airfoil(a):
    if isinstance(a, str):
        a = {"name": a}
    kw = {}
    if a.get("coordinates") is not None:
        kw["coordinates"] = np.array(a["coordinates"], dtype=float)
    if a.get("outline") is not None:
        kw["coordinates"] = outline(*a["outline"])
    if "repanel" in a:
        kw["repanel"] = a["repanel"]
    if "n_points_per_side" in a:
        kw["n_points_per_side"] = a["n_points_per_side"]
    if a.get("name") is not None:
        kw["name"] = a["name"]
    return ps.geometry.Airfoil(**kw)


def outline(camber, thickness, points):
    """A user's own outline, from the trailing edge over the upper side."""
    x = 0.5 * (1 + np.cos(np.linspace(0, np.pi, points)))
    up, lo = [camber * 4 * x * (1 - x) + s * thickness * (1.48 * np.sqrt(x) - 0.63 * x - 1.758 * x**2 + 1.4215 * x**3 - 0.5135 * x**4) for s in (1, -1)]
    return np.vstack([np.column_stack([x, up]), np.column_stack([x, lo])[-2::-1]])


def own_airfoil(rng):
    a = dict(outline=[R(rng, -0.08, 0.1), R(rng, 0.06, 0.2), 60], repanel=choice(rng, [True, False]), n_points_per_side=int(choice(rng, [40, 150])))
    # Most users do not name their outlines, or name them all alike.
    a.update(choice(rng, [{}, {}, dict(name="user section"), dict(name="e387")]))
    return a


def build_section(s):
    kw = {k: v for k, v in s.items() if k not in ("airfoil", "unit_normal_vector", "motion")}
    if s.get("unit_normal_vector") is not None:
        kw["unit_normal_vector"] = build_vector(s["unit_normal_vector"])
    return ps.geometry.WingCrossSection(airfoil=build_airfoil(s["airfoil"]), **kw)


def build_wing(w):
    kw = {k: v for k, v in w.items() if k not in ("sections", "unit_normal_vector", "unit_chordwise_vector", "motion")}
    for k in ("unit_normal_vector", "unit_chordwise_vector"):
        if w.get(k) is not None:
            kw[k] = build_vector(w[k])
    return ps.geometry.Wing(wing_cross_sections=[build_section(s) for s in w["sections"]], **kw)


def build_airplane(a):
    kw = {k: v for k, v in a.items() if k not in ("wings", "motion")}
    return ps.geometry.Airplane(wings=[build_wing(w) for w in a["wings"]], **kw)


def build_op(o):
    return ps.operating_point.OperatingPoint(**{k: v for k, v in o.items() if k != "motion"})


def build_steady(m):
    with sharing(m):
        planes = [build_airplane(a) for a in m["airplanes"]]
    return ps.problems.SteadyProblem(airplanes=planes, operating_point=build_op(m["op"]))


HS = "horseshoe"
RING = "ring"


def steady_solver(problem, kind):
    if kind == HS:
        return ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver(steady_problem=problem)
    return ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver(steady_problem=problem)


def run_steady(m, kind, **kw):
    s = steady_solver(build_steady(m), kind)
    s.run(logging_level="Critical", **kw)
    return s


FUNCS = {
    "cos": np.cos,
    "sq": lambda t: np.tanh(3.0 * np.sin(t)),
    "mix": lambda t: 0.7 * np.sin(t) + 0.3 * np.sin(2.0 * t + 0.4),
    "sin3": lambda t: np.sin(t) ** 3,
}
# Functions with an inner period of their own, or none at all.
OWN_PERIOD = {
    "own3": lambda t: np.sin(2.0 * np.pi * t / 3.0),
    "ramp": lambda t: t / 40.0,
    "start": lambda t: np.tanh(t / 4.0),
    "fade": lambda t: np.exp(-t / 10.0) * np.cos(3.0 * t),
}
ALL_FUNCS = {**FUNCS, **OWN_PERIOD}


def build_section_movement(section, s):
    kw = dict(s.get("motion") or {})
    for q in ("custom_sweep_function", "custom_pitch_function", "custom_heave_function"):
        if isinstance(kw.get(q), str):
            kw[q] = ALL_FUNCS[kw[q]]
    return ps.movement.WingCrossSectionMovement(base_wing_cross_section=section, **kw)


def build_wing_movement(wing, w):
    return ps.movement.WingMovement(
        base_wing=wing,
        wing_cross_sections_movements=[build_section_movement(x, s) for x, s in zip(wing.wing_cross_sections, w["sections"])],
        **(w.get("motion") or {}),
    )


def build_airplane_movement(airplane, a):
    return ps.movement.AirplaneMovement(
        base_airplane=airplane,
        wing_movements=[build_wing_movement(x, w) for x, w in zip(airplane.wings, a["wings"])],
        **(a.get("motion") or {}),
    )


def build_movement(m, bases=None):
    """bases, if a list, receives the base airplanes and the base operating point."""
    with sharing(m):
        planes = [build_airplane(a) for a in m["airplanes"]]
    op = build_op(m["op"])
    if bases is not None:
        bases.extend([planes, op])
    return ps.movement.Movement(
        airplane_movements=[build_airplane_movement(x, a) for x, a in zip(planes, m["airplanes"])],
        operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=op, **(m["op"].get("motion") or {})),
        **(m.get("time") or {}),
    )


def build_unsteady(m, only_final=None):
    mv = build_movement(m)
    kw = {}
    if only_final is None:
        only_final = m.get("only_final_results", False)
    if only_final:
        kw["only_final_results"] = True
    return ps.problems.UnsteadyProblem(movement=mv, **kw)


def unsteady_solver(problem):
    return ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(problem)


def run_unsteady(m, only_final=None, **kw):
    s = unsteady_solver(build_unsteady(m, only_final))
    kw.setdefault("prescribed_wake", m.get("prescribed_wake", True))
    kw.setdefault("calculate_streamlines", False)
    kw.setdefault("logging_level", "Critical")
    s.run(**kw)
    return s


# ------------------------------------------------------------------ generation
def R(rng, a, b, nd=3):
    return round(float(rng.uniform(a, b)), nd)


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rotation(axis, angle):
    """The right-handed rotation by an angle in radians about a unit axis."""
    k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * k @ k


def gen_wing(rng, symmetric=None, nsec=None, ncw=None, nsw=None, control=None, orient="std",
             size=1.0, offset=None, spacing=None, camber=None, planform="random", twist=4.0,
             airfoils=None, sect_normals=False, name=None, deflect=15.0):
    """A valid wing spec whose sections extend along its plane's unit normal."""
    symmetric = bool(rng.integers(2)) if symmetric is None else symmetric
    nsec = int(rng.integers(2, 4)) if nsec is None else nsec
    ncw = int(rng.integers(1, 5)) if ncw is None else ncw
    spacing = choice(rng, ["cosine", "uniform"]) if spacing is None else spacing
    control = choice(rng, ["none", "none", "symmetric", "asymmetric", "mixed"]) if control is None else control
    if orient == "fin":
        symmetric = False
    own = airfoils is None and camber is None and rng.integers(6) == 0
    if airfoils is None:
        airfoils = AIRFOILS if camber is None else (["naca0012", "naca0008"] if not camber else AIRFOILS[:1] + AIRFOILS[2:4])
    n = np.array([0.0, 1.0, 0.0])
    cw = np.array([1.0, 0.0, 0.0])
    if orient == "tilt":
        g = np.radians(R(rng, -40, 40))
        n = np.array([0.0, np.cos(g), np.sin(g)])
    elif orient == "vertical":
        n = np.array([0.0, 0.0, 1.0])
    elif orient == "fin":
        # Raised over the plane of a wing of ordinary directions, right up or nearly so.
        g = np.radians(choice(rng, [90.0, -90.0, R(rng, 65, 89), R(rng, -89, -65)]))
        n = np.array([0.0, np.cos(g), np.sin(g)]) * (1.0 if abs(np.cos(g)) > 1e-9 else [0.0, 0.0, 1.0])
    elif orient == "incidence":
        g = np.radians(R(rng, -8, 8))
        cw = np.array([np.cos(g), 0.0, -np.sin(g)])
    elif orient == "general":
        ax = rng.normal(size=3)
        ax /= np.linalg.norm(ax)
        q = rotation(ax, np.radians(R(rng, 3, 40)))
        n, cw = q @ n, q @ cw
    up = np.cross(cw, n)
    sections = []
    pos = np.zeros(3)
    chord = size * R(rng, 0.6, 1.6)
    simple = planform == "rect"
    sweep0 = 0.0 if simple else R(rng, -0.2, 0.6)
    dih0 = 0.0 if simple else R(rng, -0.15, 0.3)
    for i in range(nsec):
        if i > 0:
            span = size * R(rng, 0.7, 2.5)
            dx = 0.0 if simple else span * (sweep0 + R(rng, -0.1, 0.1))
            du = 0.0 if simple else span * (dih0 + R(rng, -0.05, 0.1))
            pos = pos + span * n + dx * cw + du * up
            if not simple:
                chord = chord * R(rng, 0.55, 1.15)
                if nsec > 6:  # no needle at the end of a long row of sections
                    chord = max(chord, 0.3 * size)
        s = dict(
            x_le=float(pos[0]), y_le=float(pos[1]), z_le=float(pos[2]),
            chord=float(chord),
            twist=0.0 if simple or twist == 0 else R(rng, -twist, twist),
            airfoil=(own_airfoil(rng) if own else choice(rng, airfoils)) if not simple or i == 0 else sections[0]["airfoil"],
            num_spanwise_panels=int(rng.integers(1, 5)) if nsw is None else (nsw if np.isscalar(nsw) else nsw[min(i, len(nsw) - 1)]),
            spanwise_spacing=choice(rng, ["cosine", "uniform"]),
        )
        if orient in ("tilt", "vertical", "general"):
            s["unit_normal_vector"] = n.tolist()
        if sect_normals and i > 0:
            g = np.radians(R(rng, -25, 35))
            if orient == "std":
                s["unit_normal_vector"] = [0.0, float(np.cos(g)), float(np.sin(g))]
            else:
                s["unit_normal_vector"] = (rotation(cw, g) @ n).tolist()
        if control != "none":
            s["control_surface_type"] = control if control != "mixed" else choice(rng, ["symmetric", "asymmetric"])
            s["control_surface_deflection"] = choice(rng, [0.0, R(rng, -deflect, deflect), R(rng, -deflect, deflect)])
            s["control_surface_hinge_point"] = R(rng, 0.3, 0.9)
        sections.append(s)
    if offset is None:
        offset = [size * R(rng, -1, 1), 0.0 if symmetric else size * R(rng, -0.5, 0.5), size * R(rng, -0.5, 0.5)]
    w = dict(x_le=float(offset[0]), y_le=float(offset[1]), z_le=float(offset[2]), symmetric=symmetric,
             num_chordwise_panels=ncw, chordwise_spacing=spacing, sections=sections)
    if orient in ("tilt", "vertical", "general"):
        w["unit_normal_vector"] = n.tolist()
    if orient in ("incidence", "general"):
        w["unit_chordwise_vector"] = cw.tolist()
    if name:
        w["name"] = name
    return w


def wing_panels(w):
    n = sum(s["num_spanwise_panels"] for s in w["sections"][:-1])
    return n * (2 if w.get("symmetric") else 1) * w["num_chordwise_panels"]


def vary_panels(rng, w, chordwise):
    """Gives the wing and its sections panel counts of their own."""
    if chordwise and rng.integers(2):
        w["num_chordwise_panels"] = max(1, w["num_chordwise_panels"] + int(choice(rng, [-1, 1])))
    if len(w["sections"]) > 2 or chordwise:
        for s in w["sections"]:
            if rng.integers(2):
                s["num_spanwise_panels"] = max(1, s["num_spanwise_panels"] + int(choice(rng, [-1, 1])))


def gen_airplane(rng, nwings=None, ref=None, size=1.0, origin=(0, 0, 0), name=None, orients=("std",), equal=False, index=0, **kw):
    if nwings is None:
        nwings = int(rng.integers(1, 3)) if rng.integers(7) else 3
    wings = []
    for i in range(nwings):
        # Keep the wings apart so that they do not cut one another.
        sx = size if i == 0 else 0.5 * size
        off = [origin[0] + i * size * R(rng, 5, 6), origin[1] + (0.0 if rng.integers(2) else size * R(rng, -0.4, 0.4)), origin[2] + i * size * R(rng, 1.5, 2.5) * choice(rng, [-1, 1])]
        orient = choice(rng, list(orients)) if i > 0 or len(orients) == 1 else orients[0]
        w = gen_wing(rng, size=sx, offset=off, orient=orient, name=f"wing {i}", **kw)
        if not equal:
            vary_panels(rng, w, i > 0 or index > 0)
        wings.append(w)
    a = dict(wings=wings, name=name or "plane",
             x_ref=origin[0] + size * R(rng, -0.5, 1), y_ref=origin[1] + size * R(rng, -0.3, 0.3), z_ref=origin[2] + size * R(rng, -0.4, 0.4))
    ref = bool(rng.integers(3) == 0) if ref is None else ref
    if ref:
        for k, lo, hi in (("s_ref", 1, 8), ("c_ref", 0.3, 2), ("b_ref", 2, 12)):
            if rng.integers(2):
                a[k] = R(rng, lo, hi)
    return a


def gen_op(rng, beta=None, alpha=None, velocity=None):
    density, v = R(rng, 0.3, 3), R(rng, 2, 40)
    if velocity is None and rng.integers(4) == 0:
        density, v = float(f"{10 ** rng.uniform(-4, 3):.4g}"), float(f"{10 ** rng.uniform(-1.5, 2.5):.4g}")
    return dict(
        density=density, velocity=v if velocity is None else velocity,
        alpha=R(rng, -12, 18) if alpha is None else alpha,
        beta=(R(rng, -15, 15) if rng.integers(3) else 0.0) if beta is None else beta,
        nu=float(choice(rng, [15.06e-6, 1e-3, 0.0])),
    )


def integer_wing(w):
    """Replaces the wing's numbers by whole numbers given as Python integers, as users often write them."""
    for k in ("x_le", "y_le", "z_le"):
        w[k] = int(round(w[k]))
    if w["num_chordwise_panels"] % 2:
        w["unit_normal_vector"], w["unit_chordwise_vector"] = [0, 1, 0], [1, 0, 0]
    y = -1
    for s in w["sections"]:
        s["x_le"], s["z_le"], s["twist"] = int(round(s["x_le"])), int(round(s["z_le"])), int(round(s["twist"]))
        y = s["y_le"] = max(int(round(s["y_le"])), y + 1)
        s["chord"] = max(1, int(round(s["chord"])))
        if "control_surface_deflection" in s:
            s["control_surface_deflection"] = int(round(s["control_surface_deflection"]))


def integers(m):
    for a in m["airplanes"]:
        for k in ("x_ref", "y_ref", "z_ref"):
            a[k] = int(round(a[k]))
        for w in a["wings"]:
            integer_wing(w)
    op = m["op"]
    for k in ("velocity", "density"):
        op[k] = max(1, int(round(op[k])))
    for k in ("alpha", "beta"):
        op[k] = int(round(op[k]))


def is_plain(w):
    return not any("unit_normal_vector" in x or "unit_chordwise_vector" in x for x in [w] + w["sections"])


def gen_steady(rng, nair=None, spread=12.0, size=None, **kw):
    nair = int(choice(rng, [1, 1, 2, 3])) if nair is None else nair
    size = float(choice(rng, [0.002, 0.5, 1.0, 1.0, 1.0, 5.0, 40.0])) if size is None else size
    op_kw = {k: kw.pop(k) for k in ("beta", "alpha", "velocity") if k in kw}
    planes = []
    for i in range(nair):
        origin = (i * size * R(rng, 0.5 * spread, spread), i * size * R(rng, -3, 9), i * size * R(rng, -2, 2))
        planes.append(gen_airplane(rng, origin=origin, size=size, name=f"plane {i}", index=i, **kw))
    m = dict(airplanes=planes, op=gen_op(rng, **op_kw))
    plain = all(is_plain(w) for a in planes for w in a["wings"])
    if plain and size >= 1 and not op_kw and rng.integers(4) == 0:
        integers(m)
    m["share"] = bool(rng.integers(2))
    if rng.integers(4) == 0:
        # Nobody bothered to name anything.
        for a in planes:
            a.pop("name")
            for w in a["wings"]:
                w.pop("name", None)
    return m


def swing(rng, lo, hi):
    """An amplitude of either sign: a negative one starts the other way."""
    return R(rng, lo, hi) * choice(rng, [1, 1, -1])


def gen_motion_section(rng, i, T, amps=(12.0, 8.0, 12.0)):
    """Motion keywords for section i (the root may only pitch)."""
    d = {}
    for nm, cust, a in (("sweeping", "custom_sweep_function", amps[0]), ("pitching", "custom_pitch_function", amps[1]), ("heaving", "custom_heave_function", amps[2])):
        if i == 0 and nm != "pitching":
            continue
        if rng.integers(2):
            d[nm + "_amplitude"] = swing(rng, 0.2 * a, a)
            d[nm + "_period"] = float(T if rng.integers(2) else round(T * R(rng, 0.4, 1.3, 2), 6))
            sp = choice(rng, ["sine", "uniform", "custom"])
            d[nm + "_spacing"] = sp
            if sp == "custom":
                d[cust] = choice(rng, sorted(FUNCS))
    return d


def add_motion(rng, m, T, what=("sections", "wing", "ref", "op"), p=0.6, amps=(12.0, 8.0, 12.0), length=1.0):
    """Adds motion in place to a model spec."""
    any_motion = False
    for a in m["airplanes"]:
        if "ref" in what and rng.random() < p:
            a["motion"] = {}
            for ax in "xyz":
                if rng.integers(2):
                    a["motion"].update({f"{ax}_ref_amplitude": length * swing(rng, 0.02, 0.2), f"{ax}_ref_period": float(round(T * choice(rng, [1, 1, 0.6]), 6)), f"{ax}_ref_spacing": choice(rng, ["sine", "uniform"])})
                    any_motion = True
        for w in a["wings"]:
            if "wing" in what and rng.random() < p:
                w["motion"] = {}
                for ax in "xyz":
                    if rng.integers(2):
                        w["motion"].update({f"{ax}_le_amplitude": length * swing(rng, 0.02, 0.2), f"{ax}_le_period": float(round(T * choice(rng, [1, 0.5, 0.8]), 6)), f"{ax}_le_spacing": choice(rng, ["sine", "uniform"])})
                        any_motion = True
            if "sections" in what and rng.random() < p + 0.2:
                for i, s in enumerate(w["sections"]):
                    mo = gen_motion_section(rng, i, T, amps)
                    if mo:
                        s["motion"] = mo
                        any_motion = True
    if "op" in what and rng.random() < p:
        m["op"]["motion"] = dict(velocity_amplitude=round(m["op"]["velocity"] * swing(rng, 0.02, 0.25), 5), velocity_period=float(round(T * choice(rng, [1, 0.7]), 6)), velocity_spacing=choice(rng, ["sine", "uniform"]))
        any_motion = True
    if not any_motion:
        a = m["airplanes"][0]["wings"][0]
        a["sections"][-1]["motion"] = dict(pitching_amplitude=5.0, pitching_period=float(T), pitching_spacing="sine")
    if rng.integers(6) == 0:
        faint(m)
    return m


def align(rng, m, dt, k=None):
    """Makes the longest period of one of the model's parts, or of all of it, exactly k (or about as many as it is) steps, and scales the others along."""
    dicts = lambda *xs: [x["motion"] for x in xs if x.get("motion")]
    wing = lambda w: dicts(w, *w["sections"])
    parts = [wing(w) for a in m["airplanes"] for w in a["wings"]] + [dicts(a) + sum(map(wing, a["wings"]), []) for a in m["airplanes"]] + [dicts(m["op"])]
    parts.append(list({id(d): d for p in parts for d in p}.values()))
    longest = [max([v for d in p for q, v in d.items() if q.endswith("_period")], default=0.0) for p in parts]
    P = [x for x in longest if x > 0]
    if not P:
        return
    P = choice(rng, P)
    k = max(3, round(P / dt)) if k is None else k
    for d in parts[-1]:
        for q, v in d.items():
            if q.endswith("_period"):
                d[q] = float(k * dt if v == P else v * (k * dt / P))


def faint(m, f=1e-4):
    """The same motion, hardly visible: it still counts."""
    for a in m["airplanes"]:
        for x in [a] + [y for w in a["wings"] for y in [w] + w["sections"]] + [m["op"]]:
            for k in x.get("motion") or {}:
                if k.endswith("_amplitude"):
                    x["motion"][k] = float(x["motion"][k] * f)


def quicken(m, f):
    for a in m["airplanes"]:
        for x in [a] + [y for w in a["wings"] for y in [w] + w["sections"]] + [m["op"]]:
            for k in x.get("motion") or {}:
                if k.endswith("_period"):
                    x["motion"][k] = float(x["motion"][k] * f)


def gen_unsteady(rng, nair=1, steps=None, static=False, free=None, size=1.0, motion_kw=None, dt=None, fast=1.0, **kw):
    kw.setdefault("ncw", int(rng.integers(1, 4)))
    kw.setdefault("nsw", int(rng.integers(1, 4)))
    kw.setdefault("control", "none")
    m = gen_steady(rng, nair=nair, size=size, **kw)
    m["op"]["nu"] = float(choice(rng, [15.06e-6, 1e-3, 1e-2, 0.0]))
    V = m["op"]["velocity"]
    dt = size * R(rng, 0.15, 0.5) / V if dt is None else dt
    steps = int(rng.integers(2, 8)) if steps is None else steps
    T = dt * steps * choice(rng, [0.5, 0.7, 0.9, 1.4])
    if not static:
        add_motion(rng, m, T, length=size, **(motion_kw or {}))
        if steps > 3 and rng.integers(3) == 0:
            align(rng, m, dt)
    if fast != 1:
        # As fast, through tiny distances in a tiny time.
        dt *= fast
        faint(m, fast)
        quicken(m, fast)
    m["time"] = dict(num_steps=steps, delta_time=float(dt))
    m["prescribed_wake"] = not (bool(rng.integers(2)) if free is None else free)
    return m


def warm_kernels():
    rng = np.random.default_rng(0)
    m = gen_steady(rng, nair=1, nwings=1, symmetric=False, ncw=2, nsw=1, nsec=2, control="none")
    run_steady(m, HS)
    run_steady(m, RING)
    u = copy.deepcopy(m)
    u["time"] = dict(num_steps=3, delta_time=0.05)
    run_unsteady(u, prescribed_wake=False, calculate_streamlines=True)


# ------------------------------------------------------------------ observation
def panels_of(airplane):
    for w in airplane.wings:
        for p in np.ravel(w.panels):
            yield p


def mesh_of(wing):
    """(rows+1, cols+1, 3) array of a wing's vertices; requires a watertight mesh."""
    P = wing.panels
    n, k = P.shape
    out = np.zeros((n + 1, k + 1, 3))
    for i in range(n):
        for j in range(k):
            out[i, j] = P[i, j].front_left_vertex
            out[i, j + 1] = P[i, j].front_right_vertex
            out[i + 1, j] = P[i, j].back_left_vertex
            out[i + 1, j + 1] = P[i, j].back_right_vertex
    return out


def corners(wing):
    """(rows, cols, 4, 3): FL, FR, BL, BR."""
    P = wing.panels
    return np.array([[[p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex] for p in row] for row in P], dtype=float)


def totals(airplane):
    """Force, moment, force coefficients, moment coefficients in wind axes."""
    return [
        np.array(airplane.total_near_field_force_wind_axes, dtype=float),
        np.array(airplane.total_near_field_moment_wind_axes, dtype=float),
        np.array(airplane.total_near_field_force_coefficients_wind_axes, dtype=float),
        np.array(airplane.total_near_field_moment_coefficients_wind_axes, dtype=float),
    ]
