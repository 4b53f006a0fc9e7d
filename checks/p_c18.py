"""C18: operating-point frames, freestream and dynamic pressure, and the frame of totals."""
import numpy as np

import ref
from models_lib import build_steady, gen_steady, R, steady_solver
import pterasoftware as ps

PROP = "C18"
LEVEL_RULE = (
    "A case is a batch of operating points (full range of angles including multiples of 90 degrees, many orders of magnitude of speed and density) or one solved steady "
    "model whose airplane totals are compared with its panels' geometry-axis loads seen through the operating point's own rotation."
)
REQUIRED = ["dynamic-pressure", "lengths-preserved", "columns", "freestream-speed", "freestream-direction", "direction-unit", "alpha-sense", "beta-sense", "against-x", "totals-frame", "defaults", "kept"]


def make_cases(tier):
    n = 60 if tier == "quick" else 400
    out = [dict(kind="op", rep=r) for r in range(n)] + [dict(kind="grid", rep=r) for r in range(4)]
    return out + [dict(kind="model", solver=s, rep=r) for r in range(n // 3) for s in ("ring", "horseshoe")] + [dict(kind="default", rep=0)]


def one(mon, alpha, beta, V, rho, nu, T, o=None):
    """o: an operating point in use already, whose values are replaced, as a trim analysis or a user's sweep does."""
    if o is None:
        o = ps.operating_point.OperatingPoint(density=rho, velocity=V, alpha=alpha, beta=beta, nu=nu, external_thrust=T)
    else:
        for k, x in dict(density=rho, velocity=V, alpha=alpha, beta=beta, nu=nu, external_thrust=T).items():
            if getattr(o, k) is not x:
                setattr(o, k, x)
    mon.true("kept", (o.density, o.velocity, o.alpha, o.beta, o.nu, o.external_thrust) == (rho, V, alpha, beta, nu, T), "constructor changed a value")
    mon.close("dynamic-pressure", o.calculate_dynamic_pressure(), 0.5 * rho * V * V, 1e-12)
    M = np.array(o.calculate_rotation_matrix_wind_to_geometry(), float)
    mon.close("lengths-preserved", M @ M.T, np.eye(3), 1e-12)
    # Columns: wind x (upstream), y (right), z (down) in geometry axes.
    mon.close("columns", M, ref.wind_axes(alpha, beta).T, 1e-12, msg=f"alpha {alpha} beta {beta}")
    d = np.array(o.calculate_freestream_direction_geometry_axes(), float)
    v = np.array(o.calculate_freestream_velocity_geometry_axes(), float)
    mon.close("direction-unit", np.linalg.norm(d), 1.0, 1e-12)
    mon.close("freestream-speed", np.linalg.norm(v), V, 1e-12)
    mon.close("freestream-direction", v, -ref.wind_axes(alpha, beta)[0] * V, 1e-12, V)
    mon.close("freestream-direction", d, v / V, 1e-12, 1.0)
    mon.close("against-x", M @ np.array([-1.0, 0, 0]), d, 1e-12, 1.0)
    if 0 < alpha < 180 and abs(beta) < 90:
        mon.true("alpha-sense", d[2] > 0, f"alpha {alpha} beta {beta}: flow {d} does not come from below")
    if 0 < beta < 180:
        mon.true("beta-sense", d[1] < 0, f"alpha {alpha} beta {beta}: flow {d} does not come from the right")
    mon.state(round(alpha), round(beta))
    # What was handed out is the caller's.
    M *= 0.0
    for x in (o.calculate_rotation_matrix_wind_to_geometry(), o.calculate_freestream_direction_geometry_axes(), o.calculate_freestream_velocity_geometry_axes()):
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x += 3.0
    return o


def run_case(case, rng, mon):
    if case["kind"] == "default":
        o = ps.operating_point.OperatingPoint()
        mon.close("defaults", [o.density, o.velocity, o.alpha, o.beta, o.external_thrust, o.nu], [1.225, 10.0, 5.0, 0.0, 0.0, 15.06e-6], 1e-12)
    elif case["kind"] == "op":
        o = None
        for _ in range(40):
            new = [float(rng.uniform(-180, 180)), float(rng.uniform(-180, 180)), float(10 ** rng.uniform(-3, 3)), float(10 ** rng.uniform(-3, 3)), float(10 ** rng.uniform(-7, 0)), float(rng.normal() * 10)]
            if o is not None and rng.integers(2):
                # Only one value, or some of them, replaced.
                old = [o.alpha, o.beta, o.velocity, o.density, o.nu, o.external_thrust]
                j = int(rng.integers(6))
                keep = rng.integers(2, size=6) if rng.integers(2) else np.arange(6) != j
                o = one(mon, *[a if k else b for a, b, k in zip(old, new, keep)], o)
            else:
                o = one(mon, *new, o if rng.integers(2) else None)
    elif case["kind"] == "grid":
        for a in (-180, -135, -90, -45, -1e-9, 0, 1e-9, 30, 45, 90, 135, 180):
            for b in (-180, -90, -60, 0, 1e-9, 45, 90, 180):
                one(mon, a, b, R(rng, 1, 50), R(rng, 0.1, 3), 1e-5, 0.0)
    else:
        m = gen_steady(rng, alpha=float(rng.uniform(-25, 25)), beta=float(rng.uniform(-30, 30)))
        mon.sample = m
        p = build_steady(m)
        s = steady_solver(p, case["solver"])
        s.run(logging_level="Critical")
        M = np.array(p.operating_point.calculate_rotation_matrix_wind_to_geometry(), float)
        # q of the model.
        q = p.operating_point.calculate_dynamic_pressure()
        for a in s.airplanes:
            ps_ = [x for w in a.wings for x in np.ravel(w.panels)]
            F = np.array([x.near_field_force_geometry_axes for x in ps_], float)
            Mo = np.array([x.near_field_moment_geometry_axes for x in ps_], float)
            f = np.array(a.total_near_field_force_wind_axes, float)
            mo = np.array(a.total_near_field_moment_wind_axes, float)
            mon.close("totals-frame", M @ f, F.sum(0), 1e-9, np.abs(F).sum(0).max())
            mon.close("totals-frame", M @ mo, Mo.sum(0), 1e-9, np.abs(Mo).sum(0).max())
            c = np.array(a.total_near_field_force_coefficients_wind_axes, float)
            mon.close("totals-frame", c * q * a.s_ref, f * [-1, 1, -1], 1e-9, np.abs(f).max())
            if np.linalg.norm(f) > 0:
                # Drag is the component along the flow, lift is perpendicular to it.
                d = p.operating_point.calculate_freestream_direction_geometry_axes()
                mon.close("totals-frame", c[0] * q * a.s_ref, F.sum(0) @ d, 1e-9, np.abs(F).sum(0).max())
