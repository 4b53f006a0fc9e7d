"""C20: returned trim conditions vs bounds and an independent re-solve of the model there."""
import copy
import math

import numpy as np

from models_lib import HS, build_movement, build_op, build_steady, choice, gen_steady, gen_unsteady, R, run_steady, run_unsteady
import pterasoftware as ps

PROP = "C20"
LEVEL_RULE = (
    "A case is one trim problem (steady or unsteady; base already trimmed, off trim in one component by a chosen multiple of the tolerance with narrow bounds, "
    "off trim with wide bounds, or untrimmable); numbers are judged by re-solving the model there, failures by there being four (three) not-a-numbers. "
    "Non-trivial when the base condition's imbalance is known from an independent solve."
)
REQUIRED = ["shape", "in-bounds", "balanced", "base-reported", "untrimmable-nan", "all-nan", "base-rejected", "found-elsewhere", "unsteady-balanced", "unsteady-nan", "unsteady-shape"]
ASSUMPTIONS = ["the tolerance applies to the mean of the norms of the net force and net moment coefficients, as the analysis documents in its objective"]
CASE_LIMIT = dict(quick=300, thorough=900)
OFFS = ["weight", "thrust", "pitch", "roll", "side", "yaw"]


def make_cases(tier):
    reps = 4 if tier == "quick" else 30
    out = []
    for r in range(reps):
        out += [dict(kind="unsteady", off=o, f=f, moving=mv, rep=r) for o, f in (("none", 0.0), ("weight", 0.8), ("weight", 1.3), ("pitch", 1.4), ("roll", 1.3), ("side", 1.3), ("yaw", 1.3)) for mv in (False, True)]
        out += [dict(kind="unsteady-wide", moving=mv, rep=r) for mv in (False, True)]
        out += [dict(kind="wide", off=o, rep=r) for o in ("velocity", "alpha", "thrust", "all", "edge")]
        out += [dict(kind="lottery", calls=c, rep=r) for c in (3, 4, 6, 9)] + [dict(kind="unsteady-lottery", moving=mv, rep=r) for mv in (False, True)]
        out += [dict(kind="tight", off=o, f=f, rep=r) for o in OFFS for f in (0.6, 0.93, 1.07, 1.6, 4.0)]
        out += [dict(kind="trimmed", bound=b, rep=r) for b in ("wide", "base-at-low", "base-at-high")]
        out += [dict(kind="hopeless", off=o, rep=r) for o in ("heavy", "roll", "thrust")]
    return out


def solve(m):
    s = run_steady(m, HS)
    a = s.airplanes[0]
    return np.array(a.total_near_field_force_coefficients_wind_axes, float), np.array(a.total_near_field_moment_coefficients_wind_axes, float), a


def q_of(op):
    return 0.5 * op["density"] * op["velocity"] ** 2


def objective(C, CM, weight, thrust, q, s):
    return (np.linalg.norm(C - np.array([thrust, 0.0, weight]) / (q * s)) + np.linalg.norm(CM)) / 2


def shift_ref(m, C, CM, a, q):
    """Moves the reference point so that the pitching moment vanishes (no sideslip)."""
    n = 0
    while n < 3:
        W = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        al = np.radians(m["op"]["alpha"])
        L, D = C[2] * q * a.s_ref, C[0] * q * a.s_ref
        Fz = L * np.cos(al) + D * np.sin(al)
        My = CM[1] * q * a.s_ref * a.c_ref
        m["airplanes"][0]["x_ref"] -= My / Fz * SIGN
        C, CM, a = solve(m)
        if abs(CM[1]) < 1e-10:
            break
        n += 1
    return C, CM, a


SIGN = 1.0


def add_fin(rng, m, off):
    """A fin in the plane of symmetry: all but without effect in straight flight; in sideslip either its side force or its yawing moment prevails."""
    p = m["airplanes"][0]
    h = R(rng, 0.8, 1.2)
    p["wings"] = p["wings"][:1] + [dict(
        name="fin", x_le=float(p["wings"][0]["x_le"] + R(rng, 5, 7)), y_le=0.0, z_le=float(p.get("z_ref", 0.0) - h / 2), symmetric=False, num_chordwise_panels=2, chordwise_spacing="uniform",
        sections=[dict(x_le=0.0, y_le=0.0, z_le=0.0 if i == 0 else h, chord=0.8, twist=0.0, airfoil="naca0012", num_spanwise_panels=2, spanwise_spacing="cosine") for i in range(2)])]
    p["b_ref"] = 60.0 if off == "side" else R(rng, 0.4, 0.8)


def base_model(rng, case):
    m = gen_steady(rng, nair=1, nwings=int(choice(rng, [1, 2, 3])), symmetric=True, control="none", beta=0.0, alpha=R(rng, 3, 8), velocity=R(rng, 8, 30), nsec=2,
                   ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)), size=1.0, ref=bool(rng.integers(2)))
    for w in m["airplanes"][0]["wings"]:
        w["y_le"] = 0.0
    m["airplanes"][0]["y_ref"] = 0.0
    m["op"]["nu"] = 15.06e-6
    if case["kind"] == "tight" and case["off"] in ("side", "yaw"):
        add_fin(rng, m, case["off"])
    return m


def trimmed(rng, case):
    """A model in exact trim and its loads, or None."""
    for _ in range(20):
        m = base_model(rng, case)
        C, CM, a = solve(m)
        q = q_of(m["op"])
        if C[2] < 0.05 or C[0] < 1e-4:
            continue
        C, CM, a = shift_ref(m, C, CM, a, q)
        m["airplanes"][0]["weight"] = float(C[2] * q * a.s_ref)
        m["op"]["external_thrust"] = float(C[0] * q * a.s_ref)
        if objective(C, CM, m["airplanes"][0]["weight"], m["op"]["external_thrust"], q, a.s_ref) < 1e-8:
            return m, C, CM, a, q
    raise RuntimeError("no trimmed model found")


def imbalance(m):
    C, CM, a = solve(m)
    return objective(C, CM, m["airplanes"][0]["weight"], m["op"]["external_thrust"], q_of(m["op"]), a.s_ref)


def analyze(m, B, cut, calls):
    return ps.trim.analyze_steady_trim(problem=build_steady(m), velocity_bounds=B[0], alpha_bounds=B[1], beta_bounds=B[2], external_thrust_bounds=B[3], objective_cut_off=cut, num_calls=calls)


def judge(mon, r, m, B, cut, unsteady=False):
    """Whatever was returned must be consistent. Returns whether numbers were."""
    n = 3 if unsteady else 4
    u = "unsteady-" if unsteady else ""
    try:
        v = [float(x) for x in r]
    except TypeError:
        v = []
    if not mon.true(u + "shape", len(v) == n, f"returned {r!r}"):
        return None
    if any(math.isnan(x) for x in v):
        mon.true("all-nan", all(math.isnan(x) for x in v), f"mixture of numbers and not-a-numbers: {v}")
        return False
    for x, (lo, hi), nm in zip(v, B, ("velocity", "alpha", "beta", "thrust")):
        e = 1e-9 * max(1.0, abs(lo), abs(hi))
        mon.true("in-bounds", lo - e <= x <= hi + e, f"{nm} {x} outside {lo} .. {hi}")
    m2 = copy.deepcopy(m)
    m2["op"].update(velocity=v[0], alpha=v[1], beta=v[2])
    if unsteady:
        o = unsteady_imbalance(m2)
        mon.true("unsteady-balanced", o < cut * (1 + 1e-6), f"re-solving at {v} leaves an imbalance of {o}, tolerance {cut}")
    else:
        m2["op"]["external_thrust"] = v[3]
        o = imbalance(m2)
        mon.true("balanced", o < cut * (1 + 1e-6), f"re-solving at {v} leaves an imbalance of {o}, tolerance {cut}")
    return v


def narrow(x, lo=False):
    d = 2e-5 * max(1.0, abs(x))
    return (x - d, x + d)


def run_case(case, rng, mon):
    # The random search reads numpy's global generator.
    np.random.seed(int(rng.integers(2**31)))
    if case["kind"].startswith("unsteady"):
        return unsteady(case, rng, mon)
    m, C, CM, a, q = trimmed(rng, case)
    mon.sample = m
    op, plane = m["op"], m["airplanes"][0]
    cut = float(choice(rng, [0.01, 0.02, 0.005] + [0.0012, 0.00045, 0.0173] * (case["kind"] == "tight")))
    V, al, T = op["velocity"], op["alpha"], op["external_thrust"]
    wide = [(0.6 * V, 1.6 * V), (al - 4, al + 5), (-1.0, 1.0), (0.0, 4 * T)]
    kind = case["kind"]
    mon.state(kind, case.get("off"), case.get("f"), case["rep"])
    if kind == "trimmed":
        B = wide
        if case["bound"] == "base-at-low":
            B = [(V, 1.6 * V), (al, al + 5), (0.0, 1.0), (T, 4 * T)]
        if case["bound"] == "base-at-high":
            B = [(0.6 * V, V), (al - 4, al), (-1.0, 0.0), (0.0, T)]
        v = judge(mon, analyze(m, B, cut, 20), m, B, cut)
        if mon.true("base-reported", bool(v), "a trimmed base condition was reported as a failure"):
            mon.close("base-reported", v, [V, al, 0.0, T], 0.02, max(1.0, abs(V)))
        # Any base value outside its bounds is refused.
        j = int(rng.integers(4))
        lo, hi = B[j]
        B2 = list(B)
        x = (V, al, 0.0, T)[j]
        B2[j] = (x + 0.1, x + 0.5) if rng.integers(2) else (x - 0.5, x - 0.1)
        try:
            r = analyze(m, B2, cut, 5)
            mon.true("base-rejected", False, f"base value {x} outside {B2[j]} gave {r}")
        except Exception:
            mon.counts["base-rejected"] += 1
        return
    if kind == "tight":
        # Choose the offset in one component to give an imbalance of f times the tolerance.
        f = case["f"]

        def off(x):
            m2 = copy.deepcopy(m)
            p = m2["airplanes"][0]
            if case["off"] == "weight":
                p["weight"] *= 1 + x
            elif case["off"] == "thrust":
                m2["op"]["external_thrust"] += x * q * a.s_ref
            elif case["off"] == "pitch":
                p["x_ref"] += x * a.c_ref
            elif case["off"] == "roll":
                p["y_ref"] += x * a.b_ref
            else:
                m2["op"]["beta"] = 40 * x
            return m2

        lo, hi = 0.0, 0.01
        while imbalance(off(hi)) < f * cut:
            hi *= 2
            if hi > 1.0:
                mon.trivial = True
                return
        for _ in range(40):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if imbalance(off(mid)) < f * cut else (lo, mid)
        s = 1 if case["off"] in ("side", "yaw") or rng.integers(2) else -1
        m2 = off(s * lo)
        I = imbalance(m2)
        B = [narrow(m2["op"]["velocity"]), narrow(al), narrow(m2["op"]["beta"]), narrow(m2["op"]["external_thrust"])]
        v = judge(mon, analyze(m2, B, cut, 12), m2, B, cut)
        if I < 0.95 * cut:
            mon.true("base-reported", bool(v), f"base condition with imbalance {I} below {cut} reported as a failure")
        elif I > 1.05 * cut:
            mon.true("untrimmable-nan", v is False, f"imbalance of {I} everywhere in the bounds, tolerance {cut}, but {v} returned")
        return
    if kind == "lottery":
        # Too few evaluations to descend, but a tolerance that most conditions within the bounds meet.
        m2 = copy.deepcopy(m)
        m2["op"]["velocity"] *= 0.45
        cut = 0.5 * imbalance(m2)
        B = [(0.45 * V, 2.5 * V), (al - 1, al + 1), (-0.5, 0.5), (0.0, 2 * T)]
        v = judge(mon, analyze(m2, B, cut, case["calls"]), m2, B, cut)
        mon.counts["found-by-chance" if v else "not-found"] += 1
        return
    if kind == "wide":
        m2 = copy.deepcopy(m)
        B = wide
        o = m2["op"]
        if case["off"] in ("velocity", "all"):
            o["velocity"] *= R(rng, 0.75, 1.3)
        if case["off"] in ("alpha", "all"):
            o["alpha"] += R(rng, -2.5, 2.5)
        if case["off"] in ("thrust", "all"):
            o["external_thrust"] *= R(rng, 0.1, 3)
        if case["off"] == "edge":
            # The trimmed speed is out of reach.
            B = [(1.05 * V, 1.3 * V), (al - 1, al + 5), (-1, 1), (0.0, 4 * T)]
            o["velocity"] = 1.1 * V
        v = judge(mon, analyze(m2, B, cut, 40), m2, B, cut)
        mon.counts["found-elsewhere" if v else "not-found"] += 1
        return
    # hopeless
    m2 = copy.deepcopy(m)
    if case["off"] == "heavy":
        m2["airplanes"][0]["weight"] *= 50
    elif case["off"] == "roll":
        m2["airplanes"][0]["y_ref"] += 5 * a.b_ref
    else:
        m2["op"]["external_thrust"] = q * a.s_ref * 30
    T2 = m2["op"]["external_thrust"]
    B = [(0.9 * V, 1.1 * V), (al - 1, al + 1), (-1, 1), (0.9 * T2, 1.1 * T2)]
    v = judge(mon, analyze(m2, B, cut, 10), m2, B, cut)
    mon.true("untrimmable-nan", v is False, f"untrimmable model reported as trimmed at {v}")


# ------------------------------------------------------------------ unsteady
def unsteady_coefficients(m):
    s = run_unsteady(m, only_final=False)
    p = s.unsteady_problem
    pre = "final_near_field_" if p.max_period == 0 else "final_mean_near_field_"
    return np.array(getattr(p, pre + "force_coefficients_wind_axes")[0], float), np.array(getattr(p, pre + "moment_coefficients_wind_axes")[0], float), p.steady_problems[0].airplanes[0]


def unsteady_imbalance(m):
    C, CM, a = unsteady_coefficients(m)
    return objective(C, CM, m["airplanes"][0]["weight"], 0.0, q_of(m["op"]), m["airplanes"][0]["s_ref"])


def unsteady_model(rng, moving, fin=None):
    for _ in range(20):
        m = gen_unsteady(rng, nair=1, nwings=1, symmetric=True, nsec=2, ncw=1, nsw=2, static=not moving, free=False, beta=0.0, alpha=R(rng, 2, 5), velocity=R(rng, 8, 20), planform="rect", camber=False,
                         motion_kw=dict(what=("ref",)))
        p = m["airplanes"][0]
        p.pop("motion", None)
        p.update(y_ref=0.0, s_ref=R(rng, 1, 5), c_ref=R(rng, 0.7, 1.5), b_ref=R(rng, 3, 6))
        p["wings"][0]["y_le"] = 0.0
        if fin:
            add_fin(rng, m, fin)
        for s in p["wings"][0]["sections"]:
            s.pop("motion", None)
        if moving:
            # The slowest period is a few default time steps long.
            c = p["wings"][0]["sections"][0]["chord"]
            p["wings"][0]["sections"][1]["motion"] = dict(sweeping_amplitude=R(rng, 2, 5), sweeping_period=float(4.5 * c / m["op"]["velocity"]))
        m["time"] = {}
        m["prescribed_wake"] = True
        C, CM, a = unsteady_coefficients(m)
        q = q_of(m["op"])
        if C[2] < 0.03:
            continue
        for _ in range(3):
            al = np.radians(m["op"]["alpha"])
            Fz = (C[2] * np.cos(al) + C[0] * np.sin(al)) * q * p["s_ref"]
            p["x_ref"] = float(p["x_ref"] - CM[1] * q * p["s_ref"] * p["c_ref"] / Fz * SIGN)
            C, CM, a = unsteady_coefficients(m)
        p["weight"] = float(C[2] * q * p["s_ref"])
        return m, C, CM
    raise RuntimeError("no model")


def unsteady(case, rng, mon):
    m, C, CM = unsteady_model(rng, case["moving"], case["off"] if case.get("off") in ("side", "yaw") else None)
    mon.sample = m
    I0 = unsteady_imbalance(m)
    p = m["airplanes"][0]
    q = q_of(m["op"])
    V, al = m["op"]["velocity"], m["op"]["alpha"]
    cut = float(max(0.01, 3 * I0))
    m2 = copy.deepcopy(m)
    mon.state(case["kind"], case["moving"], case["rep"], case.get("off"))
    if case["kind"] == "unsteady-lottery":
        m2["op"]["velocity"] *= 0.45
        B = [(0.45 * V, 2.5 * V), (al - 1, al + 1), (-0.5, 0.5)]
        calls = 3
        cut = float(0.5 * unsteady_imbalance(m2))
    elif case["kind"] == "unsteady-wide":
        m2["op"]["alpha"] += R(rng, -1, 1.5)
        m2["op"]["velocity"] *= R(rng, 0.9, 1.1)
        B = [(0.8 * V, 1.3 * V), (al - 2, al + 2), (-0.5, 0.5)]
        calls = 8
    else:
        f = case["f"]
        q2 = p["s_ref"] * q

        def off(x):
            m3 = copy.deepcopy(m)
            if case["off"] == "weight":
                m3["airplanes"][0]["weight"] += x * q2
            elif case["off"] == "pitch":
                m3["airplanes"][0]["x_ref"] += x * p["c_ref"]
            elif case["off"] == "roll":
                m3["airplanes"][0]["y_ref"] += x * p["b_ref"]
            elif case["off"] in ("side", "yaw"):
                m3["op"]["beta"] = 40 * x
            return m3

        if f:
            lo, hi = 0.0, 0.02
            while unsteady_imbalance(off(hi)) < f * cut and hi < 2:
                hi *= 2
            for _ in range(12):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if unsteady_imbalance(off(mid)) < f * cut else (lo, mid)
            m2 = off(lo)
        B = [narrow(V), narrow(al), narrow(m2["op"]["beta"])]
        calls = 6
    I = unsteady_imbalance(m2)
    mv = build_movement(m2)
    r = ps.trim.analyze_unsteady_trim(airplane_movement=mv.airplane_movements[0], operating_point=build_op(m2["op"]), velocity_bounds=B[0], alpha_bounds=B[1], beta_bounds=B[2], objective_cut_off=cut, num_calls=calls)
    v = judge(mon, r, m2, B, cut, unsteady=True)
    if case["kind"] == "unsteady":
        if I < 0.95 * cut:
            mon.true("base-reported", bool(v), f"unsteady base condition with imbalance {I} below {cut} reported as a failure")
        elif I > 1.05 * cut:
            mon.true("unsteady-nan", v is False, f"imbalance {I} everywhere in the bounds, tolerance {cut}, but {v} returned")
