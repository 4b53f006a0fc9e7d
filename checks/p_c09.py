"""C09: control-surface deflection."""
import numpy as np

import ref
from models_lib import build_airfoil, choice, DB_AIRFOILS, R
from p_c05 import custom_airfoil
from common import Abort

PROP = "C09"
LEVEL_RULE = (
    "A case is one airfoil (four-digit, database or user outline), hinge position and deflection (boundary, tiny, large, "
    "zero and out-of-range values stratified), deflected by the real code, possibly twice in a row; camber line, "
    "thickness and outline are compared point by point with an independent rigid rotation. Non-trivial unless rejected."
)
REQUIRED = ["ahead-unchanged", "behind-rotated", "thickness", "outline", "original-untouched", "zero", "mirror", "rejected", "positive-is-down", "name", "accepted-limit"]
ASSUMPTIONS = ["the hinge lies behind the nose region that a rotated rear part of a thick section could overlap"]
WARM = False


def make_cases(tier):
    reps = 20000 if tier == "quick" else 60000
    return [dict(rep=r, kind=["any", "any", "symmetric", "twice"][r % 4]) for r in range(reps)]


def pick(rng, kind):
    if kind == "symmetric":
        return f"naca00{int(rng.integers(4, 25)):02d}"
    k = int(rng.integers(3))
    if k == 0:
        return f"naca{int(rng.integers(0, 7))}{int(rng.integers(2, 7))}{int(rng.integers(4, 22)):02d}"
    if k == 1:
        return choice(rng, DB_AIRFOILS)
    return custom_airfoil(rng)


def snapshot(a):
    return [np.array(x, float).copy() for x in (a.coordinates, a.mcl_coordinates, a.upper_minus_mcl, a.thickness)] + [a.name, a.repanel, a.n_points_per_side]


def same(s, t):
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(s, t))


def run_case(case, rng, mon):
    spec = pick(rng, case["kind"])
    if isinstance(spec, str) and rng.integers(2):
        spec = dict(name=spec, n_points_per_side=int(choice(rng, [50, 100, 401])))
    a = build_airfoil(spec)
    if not isinstance(spec, str):
        spec = {k: v for k, v in spec.items() if k != "coordinates"}
    d = float(choice(rng, [R(rng, -30, 30), R(rng, -89, 89), 90.0, -90.0, 0.01, -0.01, 5.0, 1e-6]))
    h = float(choice(rng, [R(rng, 0.3, 0.95), 0.75, 0.5, R(rng, 0.25, 0.4), 0.98]))
    mon.sample = dict(airfoil=spec, deflection=d, hinge=h)
    mon.state(str(spec)[:30], round(d, 1), round(h, 2))
    before = snapshot(a)
    one(a, d, h, mon)
    mon.true("original-untouched", same(before, snapshot(a)), "the original airfoil changed")
    # The same angle at another hinge, then again at the first.
    h2 = float(choice(rng, [0.6, 0.8, h * 0.5 + 0.45]))
    one(a, d, h2, mon)
    one(a, d, h, mon)
    # No deflection: the same shape.
    z = a.add_control_surface(deflection=0.0, hinge_point=h)
    mon.close("zero", np.array(z.coordinates), before[0], 1e-12, 1.0)
    mon.close("zero", np.array(z.mcl_coordinates), before[1], 1e-12, 1.0)
    if case["kind"] == "symmetric":
        f, g = a.add_control_surface(deflection=d, hinge_point=h), a.add_control_surface(deflection=-d, hinge_point=h)
        mon.close("mirror", np.array(f.mcl_coordinates) * [1, -1], np.array(g.mcl_coordinates), 1e-9, 1.0)
        mon.close("mirror", np.array(f.coordinates)[::-1] * [1, -1], np.array(g.coordinates), 1e-9, 1.0)
    if case["kind"] == "twice" and abs(d) < 30 and h < 0.7:
        f = a.add_control_surface(deflection=d, hinge_point=h)
        keep = snapshot(f)
        one(f, R(rng, -15, 15), h * 0.6 + 0.1, mon)
        mon.true("original-untouched", same(keep, snapshot(f)), "the first deflected airfoil changed")
    for bad in (90.0001, -90.0001, R(rng, 91, 400), -R(rng, 91, 400)):
        try:
            a.add_control_surface(deflection=bad, hinge_point=h)
            mon.true("rejected", False, f"deflection {bad} accepted")
        except Exception:
            mon.true("rejected", True)
    for ok in (90.0, -90.0, 0):
        try:
            a.add_control_surface(deflection=ok, hinge_point=max(h, 0.5))
            mon.true("accepted-limit", True)
        except Exception as e:
            mon.true("accepted-limit", False, f"deflection {ok} at {max(h, 0.5)}: {e}")
    # Documented defaults.
    f = a.add_control_surface(deflection=4.0)
    mon.close("behind-rotated", np.array(f.mcl_coordinates), ref.flapped_polyline(before[1], 4.0, 0.75), 1e-9, 1.0, "default hinge")


def one(a, d, h, mon):
    mcl, um, th = np.array(a.mcl_coordinates), np.array(a.upper_minus_mcl), np.array(a.thickness)
    want = ref.flapped_polyline(mcl, d, h)
    k = mcl[:, 0] > h
    t = np.radians(d)
    Rm = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
    wum = np.where(k[:, None], um @ Rm.T, um)
    if min((want + wum)[:, 0].min(), (want - wum)[:, 0].min()) < want[0, 0]:
        raise Abort("rear part rotated past the nose")
    f = a.add_control_surface(deflection=d, hinge_point=h)
    g = np.array(f.mcl_coordinates)
    if not mon.true("outline", g.shape == mcl.shape, f"{g.shape} camber points instead of {mcl.shape}"):
        return
    mon.close("ahead-unchanged", g[~k], mcl[~k], 1e-12, 1.0)
    mon.close("behind-rotated", g[k], want[k], 1e-9, 1.0)
    if abs(d) > 1e-3:
        # Distance from the hinge is kept; the trailing edge turns by the angle, positive downwards.
        y = np.interp(h, mcl[:, 0], mcl[:, 1])
        hp = np.array([h, y])
        u, v = mcl[-1] - hp, g[-1] - hp
        ang = np.degrees(np.arctan2(u[1], u[0]) - np.arctan2(v[1], v[0]))
        mon.close("positive-is-down", (ang + 180) % 360 - 180, d, 1e-6, 1.0)
        mon.close("behind-rotated", np.linalg.norm(g[k] - hp, axis=1), np.linalg.norm(mcl[k] - hp, axis=1), 1e-9, 1.0)
    mon.close("thickness", np.array(f.thickness)[:, 1], th[:, 1], 1e-9, 1.0)
    mon.close("outline", np.array(f.coordinates), np.vstack([(want + wum)[::-1], (want - wum)[1:]]), 1e-9, 1.0)
    mon.true("name", f is not a and a.name in f.name, lambda: f"named {f.name} after {a.name}")
