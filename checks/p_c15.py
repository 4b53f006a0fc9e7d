"""C15: unsteady loads vs the unsteady Kutta-Joukowski theorem at every step."""
import numpy as np

import motion_ref as mr
import ref
import shipped
from models_lib import run_unsteady, totals
from unsteady_ref import Step, VARIANTS, expected_loads, gen

PROP = "C15"
LEVEL_RULE = (
    "A case is one random unsteady model (as for C14, half of them with user-given reference dimensions, a third with only the final results) run by the solver; "
    "every panel's and airplane's loads of every step are compared with the reference. Non-trivial when some panel carries load."
)
REQUIRED = ["panel-force", "panel-moment", "airplane-force", "airplane-moment", "coefficients", "panel-wind", "panel-coefficients", "no-early-loads", "reference-point"]
ASSUMPTIONS = ["each panel is attributed its own ring's side legs and the net front leg; the trailing-edge segment shared with the wake carries no load"]


def make_cases(tier):
    reps = 8 if tier == "quick" else 60
    return [dict(variant=v, free=f, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for f in (False, True)] + shipped.unsteady_cases(tier)


def run_case(case, rng, mon):
    if "script" in case:
        for _, s, _ in shipped.run(case["script"], case["steps"]):
            prev = None
            for k in range(len(s.steady_problems)):
                o = Step(s, k)
                if k >= s.unsteady_problem.first_results_step:
                    refs = np.array([a.xyz_ref for a in o.airplanes], float)
                    check(o, prev, s.unsteady_problem.delta_time, refs, dict(airplanes=[{} for _ in refs]), mon)
                prev = o
        return
    m = gen(case["variant"], rng, free=case["free"])
    m["only_final_results"] = case["rep"] % 3 == 1
    if case["rep"] % 2:
        for a in m["airplanes"]:
            a.update(s_ref=float(rng.uniform(1, 8)), c_ref=float(rng.uniform(0.3, 2)), b_ref=float(rng.uniform(2, 9)))
    mon.sample = m
    s = run_unsteady(m)
    n, dt = m["time"]["num_steps"], m["time"]["delta_time"]
    first = s.unsteady_problem.first_results_step
    t = np.arange(n) * dt
    refs = np.stack([np.stack([mr.quantity(a.get("motion"), k, a[k], t) for k in ("x_ref", "y_ref", "z_ref")], 1) for a in m["airplanes"]])
    prev = None
    for k in range(n):
        o = Step(s, k)
        if k < first:
            ok = all(p.near_field_force_geometry_axes is None for p in o.panels) and all(a.total_near_field_force_wind_axes is None for a in o.airplanes)
            mon.true("no-early-loads", ok, f"step {k} before the first results step {first} reports loads")
        else:
            check(o, prev, dt, refs[:, k], m, mon)
        prev = o
    mon.counts["no-early-loads"] += 1
    mon.state(case["variant"], case["free"], n, first, prev.n)
    mon.trivial = not (np.abs(prev.G) > 0).any()


def check(o, prev, dt, refs, m, mon):
    for a, r in zip(o.airplanes, refs):
        mon.close("reference-point", np.array(a.xyz_ref, float), r, 1e-9, 1e-3)
    F, M, sc = expected_loads(o, prev, dt, refs)
    arm = np.abs(o.C - refs[o.airplane_of][:, None]).max()
    gF = np.array([p.near_field_force_geometry_axes for p in o.panels], float)
    gM = np.array([p.near_field_moment_geometry_axes for p in o.panels], float)
    what = lambda: f"step {o.k}"
    mon.close("panel-force", gF, F, 1e-6, sc, what)
    mon.close("panel-moment", gM, M, 1e-6, sc * arm, what)
    W = ref.wind_axes(o.op["alpha"], o.op["beta"])
    mon.close("panel-wind", np.array([p.near_field_force_wind_axes for p in o.panels], float), gF @ W.T, 1e-10, sc, what)
    mon.close("panel-wind", np.array([p.near_field_moment_wind_axes for p in o.panels], float), gM @ W.T, 1e-10, sc * arm, what)
    q = ref.q_of(o.op)
    f = gF @ W.T
    e = np.stack([-f[:, 0], f[:, 1], -f[:, 2]], 1) / (o.q["area"] * q)[:, None]
    mon.close("panel-coefficients", np.array([[p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient] for p in o.panels], float), e, 1e-9, np.abs(e).max() + 1e-12, what)
    for i, a in enumerate(o.airplanes):
        k = o.airplane_of == i
        s_ref, c_ref, b_ref = a.s_ref, a.c_ref, a.b_ref
        spec = m["airplanes"][i]
        for nm, got in (("s_ref", s_ref), ("c_ref", c_ref), ("b_ref", b_ref)):
            if nm in spec:
                mon.true("coefficients", got == spec[nm], f"{nm} {got} instead of {spec[nm]}")
        eF, eM, eC, eCM = ref.coefficients(F[k].sum(0), M[k].sum(0), o.op, s_ref, c_ref, b_ref)
        gf, gm, gc, gcm = totals(a)
        fs = sc * k.sum() ** 0.5
        mon.close("airplane-force", gf, eF, 1e-6, fs, what)
        mon.close("airplane-moment", gm, eM, 1e-6, fs * arm, what)
        mon.close("coefficients", gc, eC, 1e-6, fs / (q * s_ref), what)
        mon.close("coefficients", gcm * [b_ref, c_ref, b_ref], eCM * [b_ref, c_ref, b_ref], 1e-6, fs * arm / (q * s_ref), what)
