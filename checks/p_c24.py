"""C24: single-fault mutations of valid models must raise, boundary-valid models must give finite results, through the real constructors and calls."""
import copy

import numpy as np

from models_lib import (FUNCS, HS, RING, R, add_motion, build_airplane, build_airfoil, build_movement, build_steady, build_unsteady, choice, gen_steady, gen_unsteady, run_steady,
                        run_unsteady, steady_solver, totals, unsteady_solver)
import pterasoftware as ps

PROP = "C24"
LEVEL_RULE = "A case is one random valid model with one violated requirement (or one limiting but valid feature); it is built and solved, and must raise (or must give finite results). Non-trivial always: the unmutated model is solved first."
BAD_WORDS = ["", "Cosine", "UNIFORM", "sin", "linear", "cosine ", None, "half-cosine", 1]
GEOM = ["no-wings", "no-sections", "one-section", "chordwise-spacing", "spanwise-spacing", "chord", "control-type", "airfoil", "root-normal", "root-offset", "not-perpendicular", "plane-not-parallel", "deflection"]
MOVE = ["wing-spacing", "section-spacing", "ref-spacing", "velocity-spacing", "custom-missing", "root-sweeps", "root-heaves", "cycles-and-steps", "cycles-static", "chords-and-steps", "chords-moving"]
CALL = ["logging-steady", "logging-unsteady", "trim-bounds", "convergence-solver", "airfoil-deflection"]
VALID = ["single-panel", "single-step", "two-steps", "deflection-90", "bound-at-base", "custom-given", "tiny-chord", "many-sections", "given-coordinates", "zero-incidence", "logging-names", "root-pitches", "cycles", "chords", "long-slender", "word-values", "last-section", "unused-spacing", "oriented-wings"]
REQUIRED = GEOM + MOVE + CALL + VALID
ASSUMPTIONS = ["a deflection set on the outermost section has no section to act on and is not validated"]


def make_cases(tier):
    reps = 45 if tier == "quick" else 300
    return [dict(kind=k, item=x, rep=r) for r in range(reps) for k, xs in (("geometry", GEOM), ("movement", MOVE), ("call", CALL), ("valid", VALID)) for x in xs]


def finite(mon, item, s, msg=""):
    for a in getattr(s, "airplanes", None) or s.steady_problems[-1].airplanes:
        for v in totals(a):
            mon.true(item, np.isfinite(v).all(), f"not finite: {v} {msg}")


def expect_error(mon, item, f, msg):
    try:
        r = f()
    except Exception:
        mon.true(item, True)
        return
    mon.fail(item, f"accepted: {msg}" + (f" giving {r!r}" if isinstance(r, (list, float, str)) else ""))


def run_case(case, rng, mon):
    mon.state(case["kind"], case["item"], case["rep"])
    dict(geometry=geometry, movement=movement, call=call, valid=valid)[case["kind"]](case, rng, mon)


def base(rng, **kw):
    kw.setdefault("ncw", int(rng.integers(1, 3)))
    kw.setdefault("nsw", int(rng.integers(1, 3)))
    return gen_steady(rng, nair=int(choice(rng, [1, 2])), nwings=int(choice(rng, [1, 2])), size=1.0, **kw)


def solve(m, k):
    return totals(run_steady(m, k).airplanes[0])[0].tolist()


def geometry(case, rng, mon):
    item, r = case["item"], case["rep"]
    m = base(rng, nsec=int(choice(rng, [2, 3])))
    k = choice(rng, [HS, RING])
    finite(mon, "single-panel", run_steady(m, k), "(the unmutated model)")
    m = copy.deepcopy(m)
    a = m["airplanes"][int(rng.integers(len(m["airplanes"])))]
    w = a["wings"][int(rng.integers(len(a["wings"])))]
    n = len(w["sections"])
    i = r % n
    s = w["sections"][i]
    what = ""
    if item == "no-wings":
        a["wings"] = []
    elif item == "no-sections":
        w["sections"] = []
    elif item == "one-section":
        w["sections"] = w["sections"][:1]
    elif item == "chordwise-spacing":
        w["chordwise_spacing"] = what = BAD_WORDS[r % len(BAD_WORDS)]
    elif item == "spanwise-spacing":
        s["spanwise_spacing"] = what = BAD_WORDS[r % len(BAD_WORDS)]
    elif item == "chord":
        s["chord"] = what = [0.0, -1.0, -1e-9, -s.get("chord", 1.0), 0, -40.0][r % 6]
    elif item == "control-type":
        s["control_surface_type"] = what = ["", "Symmetric", "antisymmetric", None, "flap", "asymetric"][r % 6]
    elif item == "airfoil":
        s["airfoil"] = what = ["no such airfoil", "naca24", "", "naca24122", "e3877", "NACA 2412x"][r % 6]
    elif item == "root-normal":
        w["sections"][0]["unit_normal_vector"] = what = [[0.0, float(np.cos(t)), float(np.sin(t))] for t in (0.02, -0.3, np.pi / 2, 1e-6)][r % 4]
    elif item == "root-offset":
        ax = ["x_le", "y_le", "z_le"][r % 3]
        w["sections"][0][ax] = what = [1e-6, -0.2, 0.5][(r // 3) % 3]
        what = f"{ax} {what}"
    elif item == "not-perpendicular":
        t = [0.1, -0.4, 0.003][r % 3]
        w["unit_chordwise_vector"] = what = [float(np.cos(t)), float(np.sin(t)), 0.0]
    elif item == "plane-not-parallel":
        t = [0.1, -0.4, 0.01][r % 3]
        w["sections"][1 + r // 3 % (n - 1)]["unit_normal_vector"] = what = [float(np.sin(t)), float(np.cos(t)), 0.0]
    elif item == "deflection":
        s = w["sections"][r % (n - 1)]
        s["control_surface_deflection"] = what = [90.001, -90.001, 91.0, -180.0, 360.0, 100.0][r % 6]
        s["control_surface_type"] = choice(rng, ["symmetric", "asymmetric"])
    mon.sample = dict(what=str(what), wing=w)
    expect_error(mon, item, lambda: solve(m, k), f"{item} {what!r} (section {i} of {n})")


def movement(case, rng, mon):
    item, r = case["item"], case["rep"]
    static = item in ("cycles-static", "chords-and-steps")
    m = gen_unsteady(rng, nair=int(choice(rng, [1, 2])), nwings=1, nsec=int(choice(rng, [2, 3])), static=static, steps=3)
    a = m["airplanes"][r % len(m["airplanes"])]
    w = a["wings"][0]
    run_unsteady(m)
    m = copy.deepcopy(m)
    a = m["airplanes"][r % len(m["airplanes"])]
    w = a["wings"][0]
    T = 5 * m["time"]["delta_time"]
    bad = ["", "Sine", "cosine", "linear", None, "sin"][r % 6]
    what = bad
    moving = bool((r // 2) % 2)
    if item == "wing-spacing":
        ax = "xyz"[r % 3]
        w.setdefault("motion", {})[f"{ax}_le_spacing"] = bad
        what = f"{ax} {bad!r}"
        if moving:
            w["motion"].update({f"{ax}_le_amplitude": 0.1, f"{ax}_le_period": T})
    elif item == "ref-spacing":
        ax = "xyz"[r % 3]
        a.setdefault("motion", {})[f"{ax}_ref_spacing"] = bad
        what = f"{ax} {bad!r}"
        if moving:
            a["motion"].update({f"{ax}_ref_amplitude": 0.1, f"{ax}_ref_period": T})
    elif item == "section-spacing":
        q = ["sweeping", "pitching", "heaving"][r % 3]
        s = w["sections"][-1]
        s.setdefault("motion", {}).update({f"{q}_spacing": bad, f"{q}_amplitude": 4.0, f"{q}_period": T})
        what = f"{q} {bad!r}"
    elif item == "velocity-spacing":
        m["op"].setdefault("motion", {})["velocity_spacing"] = bad
        if moving:
            m["op"]["motion"].update(velocity_amplitude=0.1, velocity_period=T)
    elif item == "custom-missing":
        q, c = [("sweeping", "custom_sweep_function"), ("pitching", "custom_pitch_function"), ("heaving", "custom_heave_function")][r % 3]
        s = w["sections"][-1]
        mo = s.setdefault("motion", {})
        mo.update({f"{q}_spacing": "custom", f"{q}_amplitude": 4.0, f"{q}_period": T})
        mo.pop(c, None)
        what = q
    elif item in ("root-sweeps", "root-heaves"):
        q = "sweeping" if item == "root-sweeps" else "heaving"
        w["sections"][0].setdefault("motion", {}).update({f"{q}_amplitude": [5.0, 0.01, -3.0][r % 3], f"{q}_period": T})
        what = q
    elif item == "cycles-and-steps":
        m["time"]["num_cycles"] = 2
    elif item == "cycles-static":
        m["time"] = dict(num_cycles=1 + r % 3)
    elif item == "chords-and-steps":
        m["time"]["num_chords"] = 3
    elif item == "chords-moving":
        m["time"] = dict(num_chords=2 + r % 3)
    mon.sample = dict(what=str(what))
    expect_error(mon, item, lambda: totals(run_unsteady(m).steady_problems[-1].airplanes[0])[0].tolist(), f"{item} {what!r}")


LEVELS = ["Debug", "Info", "Warning", "Error", "Critical"]


def call(case, rng, mon):
    item, r = case["item"], case["rep"]
    bad = ["critical", "", "CRITICAL", "Verbose", None, "Warn"][r % 6]
    if item == "logging-steady":
        m = base(rng, nsec=2)
        for k in (HS, RING):
            s = steady_solver(build_steady(m), k)
            expect_error(mon, item, lambda: s.run(logging_level=bad), f"logging level {bad!r}")
        expect_error(mon, item, lambda: ps.functions.convert_logging_level_name_to_value(bad), f"logging level {bad!r}")
    elif item == "logging-unsteady":
        m = gen_unsteady(rng, nair=1, nwings=1, nsec=2, steps=2)
        s = unsteady_solver(build_unsteady(m))
        expect_error(mon, item, lambda: s.run(logging_level=bad), f"logging level {bad!r}")
    elif item == "trim-bounds":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, symmetric=True, beta=0.0, alpha=4.0, velocity=10.0, ncw=1, nsw=1, control="none")
        m["op"]["external_thrust"] = 1.0
        m["airplanes"][0]["weight"] = 10.0
        base_v = [10.0, 4.0, 0.0, 1.0]
        B = [(5.0, 15.0), (-5.0, 9.0), (-3.0, 3.0), (0.0, 5.0)]
        j = r % 4
        e = [1e-6, 0.5][(r // 4) % 2]
        for side in (0, 1):
            b = list(B)
            b[j] = (base_v[j] + e, base_v[j] + 2) if side == 0 else (base_v[j] - 2, base_v[j] - e)
            f = lambda: ps.trim.analyze_steady_trim(problem=build_steady(m), velocity_bounds=b[0], alpha_bounds=b[1], beta_bounds=b[2], external_thrust_bounds=b[3], objective_cut_off=50.0, num_calls=2)
            expect_error(mon, item, f, f"bound {j}: {b[j]} with base {base_v[j]}")
    elif item == "convergence-solver":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, ncw=1, nsw=1)
        nm = ["ring", "", "Steady Ring Vortex Lattice Method", None, "unsteady ring vortex lattice method", "steady horseshoe"][r % 6]
        expect_error(mon, item, lambda: ps.convergence.analyze_steady_convergence(ref_problem=build_steady(m), solver_type=nm, num_chordwise_panels_bounds=(1, 2), panel_aspect_ratio_bounds=(2, 1)), f"solver {nm!r}")
    elif item == "airfoil-deflection":
        af = build_airfoil("naca2412")
        d = [90.001, -90.001, 135.0, -270.0, 1e9, -91.0][r % 6]
        expect_error(mon, item, lambda: af.add_control_surface(deflection=d, hinge_point=0.75), f"deflection {d}")
        for d in (90.0, -90.0, 0.0):
            mon.true("deflection-90", np.isfinite(af.add_control_surface(deflection=d, hinge_point=0.7).coordinates).all(), f"deflection {d}")


def valid(case, rng, mon):
    item, r = case["item"], case["rep"]
    try:
        accept(item, r, rng, mon)
    except Exception as e:
        if type(e).__name__ in ("Abort", "CaseTimeout"):
            raise
        mon.fail(item, f"valid input rejected: {type(e).__name__}: {str(e)[:300]}")


def accept(item, r, rng, mon):
    both = lambda m: [finite(mon, item, run_steady(m, k), k) for k in (HS, RING)]
    if item == "single-panel":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, ncw=1, nsw=1, symmetric=bool(r % 2))
        both(m)
        m["time"] = dict(num_steps=2, delta_time=0.3 / m["op"]["velocity"])
        finite(mon, item, run_unsteady(m))
    elif item in ("single-step", "two-steps"):
        m = gen_unsteady(rng, nair=1 + r % 2, nwings=1, steps=1 if item == "single-step" else 2, static=bool(r % 3))
        finite(mon, item, run_unsteady(m, prescribed_wake=bool(r % 2)))
        finite(mon, item, run_unsteady(m, only_final=True))
    elif item == "deflection-90":
        # The outermost section has no flap of its own, so the block ends at another section.
        m = gen_steady(rng, nair=1, nwings=1, nsec=3, ncw=2, nsw=1, control="symmetric", planform="rect", alpha=2.0, beta=0.0, spacing="cosine")
        s = m["airplanes"][0]["wings"][0]["sections"]
        s[r % 2].update(control_surface_deflection=[90.0, -90.0, 89.999][r % 3], control_surface_hinge_point=0.7)
        both(m)
    elif item == "last-section":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, control="none")
        m["airplanes"][0]["wings"][0]["sections"][-1]["num_spanwise_panels"] = [8, 1, 50][r % 3]
        m2 = copy.deepcopy(m)
        m2["airplanes"][0]["wings"][0]["sections"][-1]["num_spanwise_panels"] = 1
        both(m)
        a, b = totals(run_steady(m, HS).airplanes[0]), totals(run_steady(m2, HS).airplanes[0])
        mon.close(item, a[0], b[0], 1e-9, np.abs(b[0]).max(), "the outermost section's panel count matters")
    elif item == "bound-at-base":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, symmetric=True, beta=0.0, alpha=4.0, velocity=10.0, ncw=1, nsw=1, control="none")
        m["op"]["external_thrust"] = 1.0
        m["airplanes"][0]["weight"] = 10.0
        lo = r % 2
        B = [((x, x + 2.0) if lo else (x - 2.0, x)) for x in (10.0, 4.0, 0.0, 1.0)]
        v = ps.trim.analyze_steady_trim(problem=build_steady(m), velocity_bounds=B[0], alpha_bounds=B[1], beta_bounds=B[2], external_thrust_bounds=B[3], objective_cut_off=1e6, num_calls=3)
        mon.true(item, np.isfinite(v).all(), f"{v}")
    elif item == "custom-given":
        m = gen_unsteady(rng, nair=1, nwings=1, nsec=2, static=True, steps=4)
        T = 3 * m["time"]["delta_time"]
        q, c = [("sweeping", "custom_sweep_function"), ("pitching", "custom_pitch_function"), ("heaving", "custom_heave_function")][r % 3]
        m["airplanes"][0]["wings"][0]["sections"][-1]["motion"] = {f"{q}_spacing": "custom", f"{q}_amplitude": 4.0, f"{q}_period": T, c: choice(rng, sorted(FUNCS))}
        finite(mon, item, run_unsteady(m))
    elif item == "tiny-chord":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, planform="rect")
        m["airplanes"][0]["wings"][0]["sections"][-1]["chord"] = [0.05, 0.01, 0.02][r % 3]
        both(m)
    elif item == "many-sections":
        both(gen_steady(rng, nair=1, nwings=1, nsec=6 + r % 3, nsw=1, size=1.0))
    elif item == "given-coordinates":
        m = base(rng, nsec=2, control="none")
        t = np.linspace(0, np.pi, 25)
        x = 0.5 * (1 + np.cos(t))
        y = 0.1 * np.sqrt(x) * (1 - x)
        c = np.vstack([np.column_stack([x, y + 0.02 * x * (1 - x)]), np.column_stack([x[::-1][1:], (-y + 0.02 * x * (1 - x))[::-1][1:]])])
        m["airplanes"][0]["wings"][0]["sections"][0]["airfoil"] = dict(name=["my own", "no such airfoil", ""][r % 3], coordinates=c.tolist(), repanel=bool(r % 2))
        both(m)
    elif item == "zero-incidence":
        m = base(rng, alpha=0.0, beta=0.0, camber=False, control="none", twist=0.0, nsec=2)
        both(m)
    elif item == "logging-names":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, ncw=1, nsw=1)
        for l in LEVELS:
            mon.true(item, isinstance(ps.functions.convert_logging_level_name_to_value(l), int), l)
        import logging

        vals = [ps.functions.convert_logging_level_name_to_value(l) for l in LEVELS]
        mon.true(item, vals == sorted(set(vals)), f"levels not increasing: {vals}")
        logging.disable(logging.CRITICAL)
        for k in (HS, RING):
            s = steady_solver(build_steady(m), k)
            s.run(logging_level=LEVELS[r % 5])
            finite(mon, item, s)
        m["time"] = dict(num_steps=2, delta_time=0.1)
        s = unsteady_solver(build_unsteady(m))
        s.run(logging_level=LEVELS[r % 5], calculate_streamlines=False)
        finite(mon, item, s)
        logging.disable(logging.NOTSET)
    elif item == "root-pitches":
        m = gen_unsteady(rng, nair=1, nwings=1, nsec=2, static=True, steps=4)
        T = 3 * m["time"]["delta_time"]
        m["airplanes"][0]["wings"][0]["sections"][0]["motion"] = dict(pitching_amplitude=5.0, pitching_period=T, pitching_spacing=["sine", "uniform"][r % 2])
        finite(mon, item, run_unsteady(m))
    elif item in ("cycles", "chords"):
        m = gen_unsteady(rng, nair=1, nwings=1, nsec=2, static=item == "chords", steps=6, nsw=1, ncw=1 + r % 2)
        m["time"] = {("num_cycles" if item == "cycles" else "num_chords"): 1 + r % 2}
        if item == "cycles":
            m["time"]["delta_time"] = 0.3 / m["op"]["velocity"]
        finite(mon, item, run_unsteady(m))
    elif item == "long-slender":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, planform="rect", ncw=1, nsw=5, alpha=3.0, beta=0.0)
        s = m["airplanes"][0]["wings"][0]["sections"]
        s[-1]["y_le"] = 60.0 * s[0]["chord"]
        both(m)
    elif item == "word-values":
        for cs in ("cosine", "uniform"):
            for ss in ("cosine", "uniform"):
                for ct in ("symmetric", "asymmetric"):
                    m = gen_steady(rng, nair=1, nwings=1, nsec=2, spacing=cs, ncw=2, nsw=2)
                    for s in m["airplanes"][0]["wings"][0]["sections"]:
                        s.update(spanwise_spacing=ss, control_surface_type=ct)
                    finite(mon, item, run_steady(m, choice(rng, [HS, RING])))
    elif item == "oriented-wings":
        # Directions perpendicular as written, so only to within rounding.
        o, sn = [("incidence", True), ("general", False), ("general", True), ("vertical", True), ("tilt", True)][r % 5]
        m = gen_steady(rng, nair=1, nwings=int(choice(rng, [1, 2])), nsec=int(choice(rng, [2, 4])), ncw=2, nsw=1, orients=(o,), sect_normals=sn, alpha=3.0, beta=0.0)
        both(m)
        m["time"] = dict(num_steps=2, delta_time=0.2 / m["op"]["velocity"])
        finite(mon, item, run_unsteady(m))
    elif item == "unused-spacing":
        m = gen_unsteady(rng, nair=1, nwings=1, nsec=2, static=True, steps=3)
        m["airplanes"][0]["motion"] = {f"{a}_ref_spacing": choice(rng, ["sine", "uniform"]) for a in "xyz"}
        m["airplanes"][0]["wings"][0]["motion"] = {f"{a}_le_spacing": choice(rng, ["sine", "uniform"]) for a in "xyz"}
        m["op"]["motion"] = dict(velocity_spacing=choice(rng, ["sine", "uniform"]))
        finite(mon, item, run_unsteady(m))
