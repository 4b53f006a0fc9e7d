"""C12: motion changes nothing that it is not told to move."""
import copy

import numpy as np

from models_lib import (add_motion, align, build_airplane, build_airplane_movement, build_movement, build_op, choice, corners, FUNCS, gen_motion_section, gen_steady, panels_of, R)
import pterasoftware as ps

PROP = "C12"
LEVEL_RULE = (
    "A case is one random movement, with every base attribute given an unusual value; every object of every step is compared attribute by attribute "
    "and corner by corner with what was specified, the base objects are compared with a snapshot taken before, and movements without motion with the base mesh."
)
REQUIRED = ["op-kept", "airplane-kept", "wing-kept", "section-kept", "airfoil-kept", "still-geometry", "base-untouched", "distinct", "derived-kept", "shared-base", "still-part"]
KINDS = ["still", "still-vertical", "still-tilt", "still-incidence", "still-normals", "still-general", "still-fin", "moving-fin", "still-general-normals", "moving", "moving-tilt", "moving-vertical", "moving-incidence", "moving-normals", "moving-general", "moving-general-normals", "only-op", "only-ref", "only-wing", "one-wing", "shared", "moving-parts", "moving-long"]
ZERO = dict(still=True)


def make_cases(tier):
    reps = 20 if tier == "quick" else 300
    return [dict(kind=k, rep=r) for r in range(reps) for k in KINDS]


def gen(kind, rng):
    kw = dict(ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)), nsec=int(rng.integers(2, 5)), ref=True)
    for o in ("vertical", "tilt", "incidence", "general"):
        if o in kind:
            kw["orients"] = (o,)
    if kind.endswith("fin"):
        kw.update(nwings=2, orients=("std", "fin"))
    if kind.endswith("normals"):
        kw["sect_normals"] = True
    if kind == "one-wing":
        kw["nwings"] = 2
    if kind == "moving-parts":
        kw.update(nwings=int(rng.integers(3, 6)), ncw=1, nsw=1, nsec=int(rng.integers(2, 9)))
    if kind == "moving-long":
        kw.update(nwings=1, ncw=1, nsw=1, nsec=2)
    m = gen_steady(rng, nair=int(rng.integers(3, 7)) if kind == "moving-parts" else int(choice(rng, [1, 2])), control="mixed", **kw)
    m["op"]["external_thrust"] = R(rng, 0, 50)
    for a in m["airplanes"]:
        a["weight"] = R(rng, 1, 300)
        for k, lo, hi in (("s_ref", 1, 8), ("c_ref", 0.3, 2), ("b_ref", 2, 12)):
            if rng.integers(2):
                a[k] = R(rng, lo, hi)
        for w in a["wings"]:
            if rng.integers(4) == 0:
                # Sections swept and cranked strongly.
                for i, s in enumerate(w["sections"][1:]):
                    s["x_le"] += R(rng, -0.5, 0.9) * (i + 1)
    n = int(rng.integers(1, 7)) if kind != "moving-long" else int(choice(rng, [rng.integers(30, 99), rng.integers(101, 250)]))
    dt = R(rng, 0.02, 0.3)
    T = dt * R(rng, 2, 6)
    m["time"] = dict(num_steps=n, delta_time=dt)
    if kind.startswith("moving") or kind == "shared":
        add_motion(rng, m, T)
        if rng.integers(2):
            align(rng, m, dt)
    elif kind == "only-op":
        m["op"]["motion"] = dict(velocity_amplitude=0.3, velocity_period=T)
    elif kind == "only-ref":
        add_motion(rng, m, T, what=("ref",), p=1.0)
    elif kind == "only-wing":
        add_motion(rng, m, T, what=("wing",), p=1.0)
    elif kind == "one-wing":
        w = m["airplanes"][0]["wings"][-1]
        for i, s in enumerate(w["sections"]):
            s["motion"] = gen_motion_section(rng, i, T)
        w["sections"][-1]["motion"] = dict(pitching_amplitude=5.0, pitching_period=T)
    else:
        if rng.integers(2):
            # Every waveform, but no amplitude and no period: still no motion.
            for a in m["airplanes"]:
                a["motion"] = {f"{x}_ref_spacing": choice(rng, ["sine", "uniform"]) for x in "xyz"}
                for w in a["wings"]:
                    w["motion"] = {f"{x}_le_spacing": choice(rng, ["sine", "uniform"]) for x in "xyz"}
                    for s in w["sections"]:
                        s["motion"] = dict(pitching_spacing=choice(rng, ["sine", "uniform"]), sweeping_spacing="uniform", heaving_spacing="custom", custom_heave_function="cos")
    return m, n


def scalar_attrs(x):
    """Public scalar/str/array attributes of an object, copied."""
    out = {}
    for k, v in vars(x).items():
        if isinstance(v, (int, float, str, bool, np.generic)) or v is None:
            out[k] = v
        elif isinstance(v, np.ndarray) and v.dtype != object:
            out[k] = v.copy()
    return out


def snapshot(plane):
    out = [scalar_attrs(plane)]
    for w in plane.wings:
        out.append(scalar_attrs(w))
        out.append(dict(mesh=corners(w)))
        for s in w.wing_cross_sections:
            out.append(scalar_attrs(s))
            out.append(dict(name=s.airfoil.name, c=np.array(s.airfoil.coordinates), m=np.array(s.airfoil.mcl_coordinates)))
    return out


def same(a, b):
    if set(a) - set(b):
        return f"attributes {set(a) - set(b)}"
    for k in a:
        # Private attributes may be caches.
        if k.startswith("_"):
            continue
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if np.shape(x) != np.shape(y) or not np.array_equal(x, y):
                return k
        elif x != y and not (x != x and y != y):
            return f"{k}: {x} -> {y}"
    return None


def moved(d, name):
    d = (d or {}).get("motion") or {}
    return bool(d.get(name + "_amplitude")) and bool(d.get(name + "_period"))


def eq(mon, clause, got, want, what):
    if isinstance(want, str) or isinstance(want, bool):
        mon.true(clause, got == want, f"{what} is {got!r}, not {want!r}")
    else:
        try:
            ok = np.array_equal(np.asarray(got, float), np.asarray(want, float)) or np.allclose(np.asarray(got, float), np.asarray(want, float), rtol=1e-12, atol=1e-12)
        except (TypeError, ValueError):
            ok = False
        mon.true(clause, ok, f"{what} is {got!r}, not {want!r}")


DEFAULT_N, DEFAULT_C = [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]


def check_steps(mon, m, mv, base):
    n = len(mv.operating_points)
    for k in range(n):
        op = mv.operating_points[k]
        for a in ("density", "alpha", "beta", "nu", "external_thrust"):
            eq(mon, "op-kept", getattr(op, a), m["op"][a], f"step {k} {a}")
        if not moved(m["op"], "velocity"):
            eq(mon, "op-kept", op.velocity, m["op"]["velocity"], f"step {k} velocity")
        for ia, a in enumerate(m["airplanes"]):
            A, B = mv.airplanes[ia][k], base[ia]
            eq(mon, "airplane-kept", A.name, a.get("name", B.name), "name")
            eq(mon, "airplane-kept", A.weight, a["weight"], f"step {k} weight")
            for r in ("s_ref", "c_ref", "b_ref"):
                if r in a:
                    eq(mon, "airplane-kept", getattr(A, r), a[r], f"step {k} {r}")
            for x in "xyz":
                if not moved(a, f"{x}_ref"):
                    eq(mon, "airplane-kept", getattr(A, f"{x}_ref"), a[f"{x}_ref"], f"step {k} {x}_ref")
            mon.true("airplane-kept", len(A.wings) == len(a["wings"]), "number of wings")
            still_plane = True
            for iw, w in enumerate(a["wings"]):
                W, BW = A.wings[iw], B.wings[iw]
                eq(mon, "wing-kept", W.name, w.get("name", BW.name), "wing name")
                for q in ("symmetric", "num_chordwise_panels", "chordwise_spacing"):
                    eq(mon, "wing-kept", getattr(W, q), w[q], q)
                eq(mon, "wing-kept", W.unit_normal_vector, w.get("unit_normal_vector") or DEFAULT_N, "wing normal")
                eq(mon, "wing-kept", W.unit_chordwise_vector, w.get("unit_chordwise_vector") or DEFAULT_C, "wing chordwise")
                still = True
                for x in "xyz":
                    if moved(w, f"{x}_le"):
                        still_plane = False
                    else:
                        eq(mon, "wing-kept", getattr(W, f"{x}_le"), w[f"{x}_le"], f"step {k} wing {x}_le")
                mon.true("wing-kept", len(W.wing_cross_sections) == len(w["sections"]), "number of sections")
                for S, BS, s in zip(W.wing_cross_sections, BW.wing_cross_sections, w["sections"]):
                    for q in ("chord", "control_surface_type", "control_surface_deflection", "control_surface_hinge_point", "num_spanwise_panels", "spanwise_spacing"):
                        eq(mon, "section-kept", getattr(S, q), s[q], f"step {k} section {q}")
                    eq(mon, "section-kept", S.unit_normal_vector, s.get("unit_normal_vector") or DEFAULT_N, "section normal")
                    ok = S.airfoil.name == BS.airfoil.name and np.array_equal(S.airfoil.coordinates, BS.airfoil.coordinates) and np.array_equal(S.airfoil.mcl_coordinates, BS.airfoil.mcl_coordinates)
                    mon.true("airfoil-kept", ok and S.airfoil.name == (s["airfoil"] if isinstance(s["airfoil"], str) else s["airfoil"].get("name", BS.airfoil.name)), "airfoil changed")
                    if moved(s, "pitching"):
                        still = False
                    else:
                        eq(mon, "section-kept", S.twist, s["twist"], f"step {k} twist")
                    if moved(s, "sweeping") or moved(s, "heaving"):
                        still = False
                if still:
                    c = corners(BW)
                    L = np.abs(c).max()
                    off = np.array([getattr(W, f"{x}_le") - getattr(BW, f"{x}_le") for x in "xyz"], float)
                    got = corners(W)
                    mon.close("still-geometry" if not off.any() else "still-part", got - off, c, 1e-9, L, lambda: f"step {k}")
                    mon.close("derived-kept", [W.span, W.projected_area, W.wetted_area, W.standard_mean_chord, W.mean_aerodynamic_chord], [BW.span, BW.projected_area, BW.wetted_area, BW.standard_mean_chord, BW.mean_aerodynamic_chord], 1e-8)
                if iw == 0 and still:
                    for r in ("s_ref", "c_ref", "b_ref"):
                        mon.close("derived-kept", getattr(A, r), getattr(B, r), 1e-8)


def run_case(case, rng, mon):
    m, n = gen(case["kind"], rng)
    mon.sample = m
    mon.state(case["kind"], n, len(m["airplanes"]))
    base = [build_airplane(a) for a in m["airplanes"]]
    op = build_op(m["op"])
    before, opb = [snapshot(b) for b in base], scalar_attrs(op)
    ids = [{id(b) for b in base} | {id(w) for b in base for w in b.wings} | {id(s) for b in base for w in b.wings for s in w.wing_cross_sections} | {id(p) for b in base for p in panels_of(b)}]

    def mk(m):
        return ps.movement.Movement(
            airplane_movements=[build_airplane_movement(x, a) for x, a in zip(base, m["airplanes"])],
            operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=op, **(m["op"].get("motion") or {})),
            **m["time"],
        )

    mv = mk(m)
    check_steps(mon, m, mv, base)
    if case["kind"] == "shared":
        m2 = copy.deepcopy(m)
        for d in [m2["op"]] + [x for a in m2["airplanes"] for x in [a] + a["wings"] + [s for w in a["wings"] for s in w["sections"]]]:
            d.pop("motion", None)
        m2["time"]["num_steps"] = 2
        mv2 = mk(m2)
        check_steps(mon, m2, mv2, base)
        for ia in range(len(base)):
            for k in range(2):
                for W, BW in zip(mv2.airplanes[ia][k].wings, base[ia].wings):
                    c = corners(BW)
                    mon.close("shared-base", corners(W), c, 1e-9, np.abs(c).max())
        # The first movement is not disturbed by the second.
        check_steps(mon, m, mv, base)
    for ia, b in enumerate(base):
        after = snapshot(b)
        for x, y in zip(before[ia], after):
            d = same(x, y)
            mon.true("base-untouched", d is None, f"base object changed: {d}")
    d = same(opb, scalar_attrs(op))
    mon.true("base-untouched", d is None, f"base operating point changed: {d}")
    seen = set(ids[0]) | {id(op)}
    for k in range(n):
        objs = [mv.operating_points[k]]
        for steps in mv.airplanes:
            A = steps[k]
            objs += [A] + list(A.wings) + [s for w in A.wings for s in w.wing_cross_sections] + list(panels_of(A))
        dup = [type(o).__name__ for o in objs if id(o) in seen]
        mon.true("distinct", not dup, f"step {k} shares {dup[:3]} with another step or the base")
        seen |= {id(o) for o in objs}
