"""C03: steady loads vs a Kutta-Joukowski reference over the recorded vortices."""
import numpy as np

import ref
import shipped
from models_lib import gen_steady, run_steady, totals
from p_c02 import VARIANTS
from steady_ref import Obs, expected_loads

PROP = "C03"
LEVEL_RULE = (
    "A case is one random well-posed steady model (as for C02, half of them with user-given reference dimensions) "
    "solved by one solver; non-trivial when some panel carries load. Every panel force and moment and every airplane "
    "total and coefficient is one observation against the reference."
)
REQUIRED = ["panel-force", "panel-moment", "airplane-sum", "wind-axes", "coefficients", "panel-coefficients"]
ASSUMPTIONS = ["each panel is attributed its own ring's side legs and the net front leg; coincident side legs add up to the net circulation",
               "the horseshoe method's trailing legs, lying along the freestream, carry no load"]


def make_cases(tier):
    reps = 10 if tier == "quick" else 60
    return [dict(kind=k, variant=v, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for k in ("horseshoe", "ring")] + [dict(kind="shipped", script=list(x)) for x in shipped.STEADY]


def run_case(case, rng, mon):
    if case["kind"] == "shipped":
        for kind, s, _ in shipped.run(case["script"]):
            check(kind, s.airplanes, shipped.steady_spec(s), mon)
        return
    m = gen_steady(rng, ref=bool(case["rep"] % 2), **VARIANTS[case["variant"]])
    mon.sample = m
    s = run_steady(m, case["kind"])
    check(case["kind"], s.airplanes, m, mon)


def check(kind, airplanes, m, mon):
    op = m["op"]
    o = Obs(airplanes, kind)
    refs = np.array([[a["x_ref"], a["y_ref"], a["z_ref"]] for a in m["airplanes"]])
    F, M, sc = expected_loads(o, op, refs)
    arm = np.abs(o.C - refs[o.airplane_of][:, None]).max()
    gF = np.array([p.near_field_force_geometry_axes for p in o.panels], float)
    gM = np.array([p.near_field_moment_geometry_axes for p in o.panels], float)
    mon.trivial = not np.abs(gF).max() > 0
    mon.state(kind, o.n, len(airplanes))
    mon.close("panel-force", gF, F, 1e-6, sc)
    mon.close("panel-moment", gM, M, 1e-6, sc * arm)
    W = ref.wind_axes(op["alpha"], op["beta"])
    mon.close("wind-axes", np.array([p.near_field_force_wind_axes for p in o.panels], float), gF @ W.T, 1e-10, sc)
    mon.close("wind-axes", np.array([p.near_field_moment_wind_axes for p in o.panels], float), gM @ W.T, 1e-10, sc * arm)
    q = ref.q_of(op)
    for p, f, a in zip(o.panels, gF @ W.T, o.q["area"]):
        mon.close("panel-coefficients", [p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient],
                  np.array([-f[0], f[1], -f[2]]) / a / q, 1e-9, sc / a / q * 1e-3)
    for i, a in enumerate(airplanes):
        k = o.airplane_of == i
        spec = m["airplanes"][i]
        s_ref, c_ref, b_ref = a.s_ref, a.c_ref, a.b_ref
        for nm, got in (("s_ref", s_ref), ("c_ref", c_ref), ("b_ref", b_ref)):
            if nm in spec:
                mon.true("coefficients", got == spec[nm], f"{nm} {got} instead of {spec[nm]}")
        eF, eM, eC, eCM = ref.coefficients(F[k].sum(0), M[k].sum(0), op, s_ref, c_ref, b_ref)
        f, mo, c, cm = totals(a)
        mon.close("airplane-sum", f, eF, 1e-6, sc * k.sum() ** 0.5)
        mon.close("airplane-sum", mo, eM, 1e-6, sc * arm * k.sum() ** 0.5)
        scale = sc * k.sum() ** 0.5 / (q * s_ref)
        mon.close("coefficients", c, eC, 1e-6, scale)
        mon.close("coefficients", cm * [b_ref, c_ref, b_ref], eCM * [b_ref, c_ref, b_ref], 1e-6, scale * arm)
