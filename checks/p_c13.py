"""C13: time step, number of steps, longest period and averaging window."""
import math

import numpy as np

import motion_ref as mr
from models_lib import add_motion, build_movement, choice, gen_steady, R
import pterasoftware as ps

PROP = "C13"
LEVEL_RULE = (
    "A case is one movement with a random choice of which of time step, step count, cycles and chords the user gives, and with the slowest period planted at "
    "a random place of the object tree; the movement's and the problem's discretisation is compared with the definitions (the neighbour accepted when a "
    "ceil/floor argument is within rounding of an integer)."
)
REQUIRED = ["time-step", "num-steps-cycles", "num-steps-chords", "user-values", "longest-period", "averaging-step", "results-step", "lengths", "step-content"]
PLACES = ["velocity", "x_ref", "y_ref", "z_ref", "x_le", "y_le", "z_le", "sweeping", "heaving", "pitching", "root-pitching"]
STATIC = ["default", "chords", "steps", "dt", "dt+chords", "dt+steps", "exact", "exact+chords"]
MOVING = ["default", "cycles", "steps", "dt", "dt+cycles", "dt+steps", "short", "exact"]


def make_cases(tier):
    reps = 12 if tier == "quick" else 120
    out = []
    for r in range(reps):
        out += [dict(kind="static", how=h, rep=r) for h in STATIC for _ in (0,)]
        out += [dict(kind="moving", how=MOVING[(i * 3 + r) % len(MOVING)], place=p, rep=r) for i, p in enumerate(PLACES)]
        out += [dict(kind="moving", how=h, place=PLACES[(j * 5 + r) % len(PLACES)], rep=1000 + r) for j, h in enumerate(MOVING)]
        out += [dict(kind="many", how=MOVING[(r + j) % len(MOVING)], rep=r, j=j) for j in range(4)]
    return out


def near(x, exact=False):
    """Candidate integers for ceil and floor (exact: x has no rounding however it is computed)."""
    r = round(x)
    if exact and x == r:
        return {r}, {r}
    if abs(x - r) < 1e-8 * max(1, abs(x)):
        return {r, r + 1}, {r - 1, r}
    return {math.ceil(x)}, {math.floor(x)}


def set_motion(d, name, amp, T, rng):
    d.setdefault("motion", {}).update({name + "_amplitude": amp, name + "_period": T, name + "_spacing": choice(rng, ["sine", "uniform"])})


def plant(m, place, amp, T, rng, last=None):
    a = choice(rng, m["airplanes"]) if last is None else m["airplanes"][-1]
    w = choice(rng, a["wings"])
    if place == "velocity":
        set_motion(m["op"], "velocity", 0.1 * amp, T, rng)
    elif place.endswith("_ref"):
        set_motion(a, place, amp, T, rng)
    elif place.endswith("_le"):
        set_motion(w, place, amp, T, rng)
    elif place == "root-pitching":
        set_motion(w["sections"][0], "pitching", amp, T, rng)
    else:
        set_motion(choice(rng, w["sections"][1:]), place, amp, T, rng)


def run_case(case, rng, mon):
    nair = int(choice(rng, [1, 2, 3]))
    m = gen_steady(rng, nair=nair, size=float(choice(rng, [0.5, 1.0, 2.0])), control="none", ncw=None, nsw=1)
    for a in m["airplanes"]:
        for w in a["wings"]:
            w["num_chordwise_panels"] = int(rng.integers(1, 5))
        a.pop("s_ref", None)
        a.pop("b_ref", None)
        if rng.integers(2):
            a["c_ref"] = R(rng, 0.5, 2.0)
    how = case["how"]
    dyadic = case["kind"] == "static" and "exact" in how
    if dyadic:
        m["op"]["velocity"] = float(choice(rng, [2.0, 4.0, 8.0, 16.0]))
        for a in m["airplanes"]:
            a["c_ref"] = float(choice(rng, [0.5, 1.0, 1.5, 2.0]))
    probe = build_movement(dict(m, time=dict(num_steps=1, delta_time=0.1)))
    c = [p[0].c_ref for p in probe.airplanes]
    V = m["op"]["velocity"]
    dt0 = float(np.mean([ci / a["wings"][0]["num_chordwise_panels"] for ci, a in zip(c, m["airplanes"])]) / V)
    dt = dt0
    time = {}
    if "dt" in how:
        dt = time["delta_time"] = dt0 * R(rng, 0.5, 2.5)
    if dyadic:
        dt = time["delta_time"] = float(choice(rng, [1, 2, 3])) * 0.125 / V
    Tmax = 0.0
    if case["kind"] != "static":
        T = dt * R(rng, 2.2, 9.7)
        if how == "exact":
            dt = time["delta_time"] = float(choice(rng, [0.1, 0.25, 0.5, 0.125, 0.01, 0.03]))
            T = dt * int(rng.integers(2, 9))
        elif rng.integers(3) == 0:
            # Periods just over or just short of a whole number of steps.
            T = dt * (int(rng.integers(2, 10)) + float(choice(rng, [-1, 1])) * 10 ** R(rng, -6, -2))
        if case["kind"] == "many":
            add_motion(rng, m, T, p=0.8)
        else:
            for _ in range(int(rng.integers(0, 4))):
                plant(m, choice(rng, PLACES), 1.0, T * R(rng, 0.2, 0.95), rng)
            plant(m, case["place"], 1.0, T, rng)
        Tmax = max(mr.periods(m))
    if "chords" in how:
        time["num_chords"] = int(rng.integers(1, 7)) if dyadic else choice(rng, [R(rng, 0.5, 6), int(rng.integers(1, 7))])
    if "cycles" in how:
        time["num_cycles"] = choice(rng, [R(rng, 0.3, 4), int(rng.integers(1, 5))])
    if "steps" in how:
        time["num_steps"] = int(rng.integers(1, 30)) if rng.integers(8) else int(rng.integers(60, 200))
    if how == "short":
        time["num_steps"] = max(1, int(0.6 * Tmax / dt))
    if case["kind"] == "static" and "chords" in how and not dyadic and rng.integers(3) == 0:
        # Wakes just over or just short of a whole number of steps.
        time["num_chords"] = (int(rng.integers(2, 12)) + float(choice(rng, [-1, 1])) * 10 ** R(rng, -6, -2)) * dt * V / max(c)
    m["time"] = time
    exact = dt in (0.25, 0.5, 0.125) and (Tmax / dt).is_integer()
    mon.sample = m
    mv = build_movement(m)
    mon.close("longest-period", mv.get_max_period(), Tmax, 1e-12, 1e-9)
    for am, a in zip(mv.airplane_movements, m["airplanes"]):
        one = dict(airplanes=[a], op=dict(motion={}))
        mon.close("longest-period", am.get_max_period(), max(mr.periods(one)), 1e-12, 1e-9)
        for wm, w in zip(am.wing_movements, a["wings"]):
            one = dict(airplanes=[dict(wings=[w])], op={})
            mon.close("longest-period", wm.get_max_period(), max(mr.periods(one)), 1e-12, 1e-9)
    mon.close("longest-period", mv.operating_point_movement.get_max_period(), (m["op"].get("motion") or {}).get("velocity_period", 0.0), 1e-12, 1e-9)
    if "delta_time" in time:
        mon.true("user-values", mv.delta_time == time["delta_time"], f"time step {mv.delta_time} instead of {time['delta_time']}")
    else:
        mon.close("time-step", mv.delta_time, dt, 1e-10)
    if "num_steps" in time:
        n = {time["num_steps"]}
        clause = "user-values"
    elif Tmax == 0:
        n = near(time.get("num_chords", 10) * max(c) / (dt * V), dyadic)[0]
        clause = "num-steps-chords"
    else:
        n = near(time.get("num_cycles", 3) * Tmax / dt, exact)[0]
        clause = "num-steps-cycles"
    mon.true(clause, mv.num_steps in n and isinstance(mv.num_steps, (int, np.integer)), f"{mv.num_steps!r} steps instead of {sorted(n)} ({time}, period {Tmax}, dt {dt})")
    N = mv.num_steps
    mon.state(case["kind"], how, N, nair, round(Tmax / dt, 2))
    mon.true("lengths", len(mv.operating_points) == N and all(len(p) == N for p in mv.airplanes) and len(mv.airplanes) == nair, "histories of another length")
    for final in (False, True):
        p = ps.problems.UnsteadyProblem(movement=mv, only_final_results=final)
        e = {N - 1} if Tmax == 0 else {max(0, f) for f in near(N - Tmax / dt, exact)[1]}
        mon.true("averaging-step", p.first_averaging_step in e, f"averaging starts at {p.first_averaging_step} instead of {e} (N {N}, T/dt {Tmax / dt})")
        mon.true("results-step", p.first_results_step == (p.first_averaging_step if final else 0), f"results start at {p.first_results_step} (only final {final}, averaging from {p.first_averaging_step})")
        mon.close("longest-period", p.max_period, Tmax, 1e-12, 1e-9)
        mon.true("lengths", p.num_steps == N and p.delta_time == mv.delta_time and len(p.steady_problems) == N, "problem's steps")
        for k in {0, N // 2, N - 1}:
            sp = p.steady_problems[k]
            ok = len(sp.airplanes) == nair and all(x is y[k] or (x.name == y[k].name and np.array_equal(x.xyz_ref, y[k].xyz_ref)) for x, y in zip(sp.airplanes, mv.airplanes)) and sp.operating_point.velocity == mv.operating_points[k].velocity
            mon.true("step-content", ok, f"problem's step {k} holds other objects")
