"""C25: paired runs of the three solvers compared with each other and with lifting-line, thin-airfoil, Wagner and Theodorsen theory."""
import copy

import numpy as np
from scipy.special import hankel2

from models_lib import HS, RING, R, choice, run_steady, run_unsteady, totals

PROP = "C25"
LEVEL_RULE = "A case is one random thin wing (planform, camber, angle, speed, size, paneling) and one comparison between solvers or with a closed-form theory; bands were set from the spread over hundreds of wings plus a margin. Non-trivial always (lift is non-zero)."
REQUIRED = ["company", "ring-vs-horseshoe", "one-row", "lift-slope", "induced-drag", "zero-lift", "aspect-ratio", "linear", "aerodynamic-centre", "unsteady-to-steady", "approach", "free-vs-prescribed",
            "wagner", "theodorsen-heave", "theodorsen-pitch", "dihedral-effect", "aileron", "flap", "elevator", "twist", "slender"]
ASSUMPTIONS = ["adequate resolution means at least six chordwise and eight spanwise panels per half for steady comparisons"]
CASE_LIMIT = dict(quick=300, thorough=900)


def make_cases(tier):
    n = 2 if tier == "quick" else 12
    out = [dict(law="theodorsen", motion=mo, k=k, rep=r) for r in range(n) for mo in ("heave", "pitch") for k in (0.25, 0.4)]
    out += [dict(law="unsteady", rep=r) for r in range(8 * n)]
    out += [dict(law="wagner", rep=r) for r in range(3 * n)]
    for law, c in (("solvers", 16), ("slope", 16), ("zero", 10), ("centre", 10), ("ratio", 8), ("controls", 16), ("slender", 8), ("company", 12)):
        out += [dict(law=law, rep=r) for r in range(c * n)]
    return out


def wing(AR, taper=1.0, sweep=0.0, af="naca0012", ncw=6, nsw=8, spacing="cosine", dihedral=0.0, chord=1.0, mid=None, twist=0.0):
    """A symmetric wing given by its quarter-chord sweep (deg)."""
    h = AR * (1 + taper) / 4 * chord
    def sec(f, n):
        c = chord * (1 - (1 - taper) * f)
        return dict(x_le=float(f * h * np.tan(np.radians(sweep)) + 0.25 * (chord - c)), y_le=float(f * h), z_le=float(f * h * np.tan(np.radians(dihedral))), chord=float(c), airfoil=af,
                    num_spanwise_panels=n, spanwise_spacing="cosine" if mid is None else "uniform", twist=float(twist))
    s = [sec(0, nsw), sec(1, 1)] if mid is None else [sec(0, nsw), sec(mid, nsw), sec(1, 1)]
    return dict(symmetric=True, num_chordwise_panels=ncw, chordwise_spacing=spacing, sections=s)


def model(ws, alpha, beta=0.0, V=10.0, rho=1.2, x_ref=0.0):
    return dict(airplanes=[dict(name="p", x_ref=float(x_ref), y_ref=0.0, z_ref=0.0, wings=ws)], op=dict(velocity=float(V), alpha=float(alpha), beta=float(beta), density=float(rho), nu=15.06e-6))


def C(m, k):
    t = totals(run_steady(m, k).airplanes[0])
    return t[2], t[3]


def within(mon, clause, x, lo, hi, msg):
    mon.true(clause, lo <= x <= hi, f"{msg}: {x:.5g} outside {lo:.5g} .. {hi:.5g}")


def run_case(case, rng, mon):
    mon.state(case["law"], case["rep"], case.get("motion"), case.get("k"))
    globals()["do_" + case["law"]](case, rng, mon)


def random_wing(rng, **kw):
    a = dict(AR=R(rng, 4, 13), taper=R(rng, 0.4, 1), sweep=R(rng, 0, 28), spacing=choice(rng, ["cosine", "uniform"]), chord=float(choice(rng, [0.3, 1.0, 4.0])))
    a.update(kw)
    return a


def do_solvers(case, rng, mon):
    p = random_wing(rng)
    a, V, rho = R(rng, 1, 6), R(rng, 5, 40), R(rng, 0.5, 1.5)
    mon.sample = dict(p, alpha=a)
    f = lambda ncw, k: C(model([wing(ncw=ncw, **p)], a, V=V, rho=rho), k)
    h, r = f(6, HS), f(6, RING)
    within(mon, "ring-vs-horseshoe", r[0][2] / h[0][2], 0.94, 1.02, "lift of the ring method over the horseshoe method")
    within(mon, "ring-vs-horseshoe", r[0][0] / h[0][0], 0.92, 1.02, "drag of the ring method over the horseshoe method")
    within(mon, "ring-vs-horseshoe", r[1][1] / h[1][1], 0.90, 1.02, "pitching moment of the ring method over the horseshoe method")
    h, r = f(1, HS), f(1, RING)
    within(mon, "one-row", r[0][2] / h[0][2], 0.95, 1.01, "lift of one row of rings over horseshoes")
    within(mon, "one-row", r[0][0] / h[0][0], 0.88, 1.02, "drag of one row of rings over horseshoes")


def company(rng):
    """A wing with a tail and a fin in sideslip, sometimes following another airplane."""
    w = wing(AR=R(rng, 5, 8), taper=R(rng, 0.5, 1), sweep=R(rng, 0, 20), ncw=4, nsw=5, spacing="uniform", af="naca2412")
    t = wing(AR=R(rng, 3, 5), taper=R(rng, 0.6, 1), sweep=R(rng, 0, 20), ncw=4, nsw=3, spacing="uniform", chord=0.6)
    x, lean = R(rng, 4, 6), R(rng, 0, 0.3)
    t.update(x_le=x, z_le=R(rng, 0.6, 1.2))
    up = [0.0, 0.0, 1.0]
    f = dict(symmetric=False, num_chordwise_panels=4, chordwise_spacing="uniform", x_le=x, z_le=R(rng, 1.4, 1.8), unit_normal_vector=up,
             sections=[dict(x_le=float(d), y_le=0.0, z_le=float(z), chord=0.6, airfoil="naca0012", num_spanwise_panels=3, spanwise_spacing="uniform", unit_normal_vector=up) for d, z in ((0.0, 0.0), (lean, 1.1))])
    m = model([w, t, f], R(rng, 2, 6), beta=R(rng, 2, 6) * choice(rng, [-1, 1]), V=R(rng, 5, 30), rho=R(rng, 0.5, 1.5), x_ref=1.0)
    if rng.integers(2):
        b = dict(m["airplanes"][0], name="q", wings=[dict(w, x_le=-5.0, y_le=3.0, z_le=-1.5)])
        m["airplanes"].insert(int(rng.integers(2)), b)
    return m


def do_company(case, rng, mon):
    m = company(rng)
    mon.sample = m
    loads = lambda planes: [totals(a) for a in planes]
    h, r = (loads(run_steady(m, k).airplanes) for k in (HS, RING))
    for a, b in zip(h, r):
        L, M = np.linalg.norm(a[2]), np.linalg.norm(a[3])
        within(mon, "company", b[2][2] / a[2][2], 0.95, 1.05, "lift of the ring method over the horseshoe method")
        within(mon, "company", b[2][0] / a[2][0], 0.94, 1.05, "drag of the ring method over the horseshoe method")
        within(mon, "company", (b[2][1] - a[2][1]) / L, -0.02, 0.02, "difference of the side forces over the force")
        within(mon, "company", (b[3][2] - a[3][2]) / M, -0.07, 0.07, "difference of the yawing moments over the moment")
    if case["rep"] % 2:
        e = loads(run_unsteady(dict(m, time=dict(num_chords=10)), only_final=True, prescribed_wake=True).steady_problems[-1].airplanes)
        for a, b in zip(r, e):
            L, M = np.linalg.norm(a[2]), np.linalg.norm(a[3])
            within(mon, "company", b[2][2] / a[2][2], 0.92, 1.03, "lift with a wake of ten chords over steady lift")
            within(mon, "company", (b[2][0] - a[2][0]) / L, -0.01, 0.01, "difference of the drags over the steady force")
            within(mon, "company", (b[2][1] - a[2][1]) / L, -0.03, 0.03, "difference of the side forces over the steady force")
            within(mon, "company", (b[3][2] - a[3][2]) / M, -0.09, 0.09, "difference of the yawing moments over the steady moment")


def do_slender(case, rng, mon):
    """Very long wings: the farther the span, the closer the methods."""
    p = random_wing(rng, AR=R(rng, 25, 250), nsw=12, sweep=R(rng, 0, 10))
    a = R(rng, 1, 6)
    n = int(choice(rng, [1, 1, 3]))
    mon.sample = dict(p, alpha=a, ncw=n)
    h, r = (C(model([wing(ncw=n, **p)], a), k) for k in (HS, RING))
    within(mon, "slender", r[0][2] / h[0][2], 0.9965, 1.002, f"lift of the ring method over the horseshoe method at aspect ratio {p['AR']}")
    within(mon, "slender", r[0][0] / h[0][0], 0.985, 1.006, f"drag of the ring method over the horseshoe method at aspect ratio {p['AR']}")


def do_slope(case, rng, mon):
    p = random_wing(rng)
    a = R(rng, 1, 5) * choice(rng, [-1, 1])
    mon.sample = dict(p, alpha=a)
    AR = p["AR"]
    # Half-chord sweep for the lift slope of a finite wing.
    t = np.tan(np.radians(p["sweep"])) - (1 - p["taper"]) / (1 + p["taper"]) / AR
    want = 2 * np.pi * AR / (2 + np.sqrt(4 + AR**2 * (1 + t * t)))
    for k in (HS, RING):
        c = C(model([wing(**p)], a), k)[0]
        within(mon, "lift-slope", c[2] / np.radians(a) / want, 0.92, 1.07, f"{k}: lift slope over that of wing theory (aspect ratio {AR})")
        mon.true("induced-drag", c[0] > 0, f"{k}: induced drag coefficient {c[0]}")
        within(mon, "induced-drag", c[2] ** 2 / (np.pi * AR * c[0]), 0.90, 1.14, f"{k}: span efficiency")
        c2 = C(model([wing(**p)], a / 2), k)[0]
        within(mon, "linear", c2[2] / c[2], 0.49, 0.51, f"{k}: lift at half the angle")
        within(mon, "linear", c2[0] / c[0], 0.24, 0.26, f"{k}: drag at half the angle")


def alpha0(digits):
    m, p = int(digits[0]) / 100, int(digits[1]) / 10
    th = (np.arange(20000) + 0.5) * np.pi / 20000
    x = (1 - np.cos(th)) / 2
    dz = np.where(x < p, 2 * m / p**2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x))
    return float(np.degrees(-np.mean(dz * (np.cos(th) - 1))))


def do_zero(case, rng, mon):
    d = choice(rng, ["2412", "4415", "1408", "4412", "3309", "2506"])
    p = dict(AR=R(rng, 5, 11), taper=R(rng, 0.6, 1), af="naca" + d, spacing=choice(rng, ["cosine", "uniform"]), nsw=5)
    # For these sections dz/dx cos(theta) - 1 integrates to a negative angle of zero lift.
    want = -alpha0(d)
    want = -abs(want)
    mon.sample = p
    for k in (HS, RING):
        z = []
        for n in (6, 12):
            c1, c2 = (C(model([wing(ncw=n, **p)], a), k)[0][2] for a in (-1.0, 3.0))
            z.append(-1 - 4 * c1 / (c2 - c1))
        mon.true("zero-lift", abs(z[1] - want) < 0.12 * abs(want) + 0.05, f"{k}: no lift at {z[1]:.3f} degrees, thin-airfoil theory {want:.3f}")
        mon.true("zero-lift", abs(z[1] - want) < abs(z[0] - want) + 0.03, f"{k}: {z} does not approach {want:.3f}")


def do_centre(case, rng, mon):
    """Moments about the quarter chord of an unswept wing barely change with angle, and nose-down moments appear for points ahead of it."""
    p = dict(AR=R(rng, 7, 13), taper=1.0, sweep=0.0, af=choice(rng, ["naca0012", "naca2412"]), spacing=choice(rng, ["cosine", "uniform"]), ncw=8)
    c = R(rng, 0.4, 3)
    mon.sample = p
    for k in (HS, RING):
        f = lambda a, x: C(model([wing(chord=c, **p)], a, x_ref=x * c), k)
        a1, a2 = f(1.0, 0.25), f(5.0, 0.25)
        within(mon, "aerodynamic-centre", (a2[1][1] - a1[1][1]) / (a2[0][2] - a1[0][2]), -0.03, 0.03, f"{k}: moment slope about the quarter chord")
        b1, b2 = f(1.0, -0.5), f(5.0, -0.5)
        within(mon, "aerodynamic-centre", (b2[1][1] - b1[1][1]) / (b2[0][2] - b1[0][2]), -0.80, -0.70, f"{k}: moment slope about a point three quarters of a chord ahead of it")


def do_ratio(case, rng, mon):
    p = random_wing(rng, ncw=4)
    p.pop("AR")
    a = R(rng, 2, 5)
    for k in (HS, RING):
        cl = [C(model([wing(AR=x, **p)], a), k)[0][2] for x in (2.0, 4.0, 7.0, 12.0)]
        mon.true("aspect-ratio", all(y > x for x, y in zip(cl, cl[1:])), f"{k}: lift {cl} for rising aspect ratios")
        mon.true("aspect-ratio", cl[-1] < 2 * np.pi * np.radians(a), f"{k}: lift above that of two-dimensional flow")


def do_controls(case, rng, mon):
    p = random_wing(rng, ncw=5, nsw=4)
    a = R(rng, 1, 5)
    d = R(rng, 3, 10)
    k = choice(rng, [HS, RING])
    mon.sample = dict(p, alpha=a, deflection=d, solver=k)
    base = wing(mid=0.5, **p)
    c0 = C(model([base], a), k)
    # Dihedral: with the wind from the right the wing rolls to the left.
    b = R(rng, 3, 9)
    for s in (1, -1):
        c = C(model([wing(**dict(p, dihedral=R(rng, 4, 12), sweep=max(p["sweep"], 0.0)))], a, beta=s * b), k)
        mon.true("dihedral-effect", c[1][0] * s < 0, f"{k}: rolling moment coefficient {c[1][0]} at sideslip {s * b} with dihedral")
    w = copy.deepcopy(base)
    w["sections"][1].update(control_surface_type="asymmetric", control_surface_deflection=d, control_surface_hinge_point=0.7)
    c = C(model([w], a), k)
    mon.true("aileron", c[1][0] < -0.001 * d, f"{k}: rolling moment coefficient {c[1][0]} with the right aileron {d} degrees down")
    mon.true("aileron", abs(c[0][2] - c0[0][2]) < 0.05 * abs(c[1][0]) + 0.02 * abs(c0[0][2]) + 0.01, f"{k}: ailerons change the lift from {c0[0][2]} to {c[0][2]}")
    w = copy.deepcopy(base)
    w["sections"][0].update(control_surface_type="symmetric", control_surface_deflection=d, control_surface_hinge_point=0.7)
    c = C(model([w], a), k)
    # Thin-airfoil flap effectiveness (0.66 for 30 %), on half the span.
    gain = (c[0][2] - c0[0][2]) / (c0[0][2] / a * d)
    within(mon, "flap", gain, 0.15, 0.75, f"{k}: lift by a half-span flap per degree over lift by incidence per degree")
    mon.true("flap", abs(c[1][0]) < 1e-6, f"{k}: symmetric flaps roll ({c[1][0]})")
    tail = wing(AR=4.0, chord=0.5 * p["chord"], ncw=4, nsw=3)
    tail.update(x_le=4.0 * p["chord"] * p["AR"] ** 0.5, y_le=0.0, z_le=0.5 * p["chord"])
    t0 = C(model([base, tail], a), k)
    t = copy.deepcopy(tail)
    t["sections"][0].update(control_surface_deflection=d, control_surface_hinge_point=0.6)
    t1 = C(model([base, t], a), k)
    mon.true("elevator", t1[1][1] < t0[1][1] - 1e-4, f"{k}: pitching moment {t0[1][1]} becomes {t1[1][1]} with the elevator {d} degrees down")
    c = C(model([wing(mid=0.5, twist=2.0, **p)], a), k)
    within(mon, "twist", (c[0][2] - c0[0][2]) / (c0[0][2] / a * 2.0), 0.9, 1.1, f"{k}: lift by twist per degree over lift by incidence per degree")


def do_unsteady(case, rng, mon):
    p = dict(AR=R(rng, 3, 8), taper=R(rng, 0.5, 1), sweep=R(rng, 0, 22), ncw=int(rng.integers(2, 4)), nsw=int(rng.integers(3, 5)), spacing="uniform", af=choice(rng, ["naca0012", "naca2412"]))
    a = R(rng, 1, 4)
    mon.sample = dict(p, alpha=a)
    m = model([wing(**p)], a, V=R(rng, 5, 30))
    r = C(m, RING)[0]
    ends = []
    for n in (3, 12):
        u = dict(m, time=dict(num_chords=n))
        ends.append(totals(run_unsteady(u, only_final=True, prescribed_wake=True).steady_problems[-1].airplanes[0])[2])
        if n == 3:
            g = totals(run_unsteady(u, only_final=True, prescribed_wake=False).steady_problems[-1].airplanes[0])[2]
            within(mon, "free-vs-prescribed", g[2] / ends[0][2], 0.99, 1.01, "lift with a free wake over that with a prescribed one")
            within(mon, "free-vs-prescribed", g[0] / ends[0][0], 0.98, 1.02, "drag with a free wake over that with a prescribed one")
    within(mon, "unsteady-to-steady", ends[1][2] / r[2], 0.97, 1.02, "lift with a wake of twelve chords over steady lift")
    within(mon, "unsteady-to-steady", ends[1][0] / r[0], 0.95, 1.05, "drag with a wake of twelve chords over steady drag")
    mon.true("approach", abs(ends[1][2] / r[2] - 1) < abs(ends[0][2] / r[2] - 1) + 1e-3, f"lift {ends[0][2]}, {ends[1][2]} does not approach {r[2]}")


def slab(span, ncw, motion=None, pitch=None):
    s = [dict(x_le=0.0, y_le=y, z_le=0.0, chord=1.0, airfoil="naca0012", num_spanwise_panels=2, spanwise_spacing="uniform") for y in (0.0, span)]
    w = dict(symmetric=False, num_chordwise_panels=ncw, chordwise_spacing="uniform", sections=s)
    if pitch:
        for x in s:
            x["motion"] = dict(pitch)
    if motion:
        w["motion"] = motion
    return w


def lift_history(s):
    return np.array([totals(q.airplanes[0])[2][2] for q in s.steady_problems])


def do_wagner(case, rng, mon):
    """An impulsively started wing of great span."""
    ncw, V, a = 6, R(rng, 5, 20), R(rng, 1, 4) * choice(rng, [-1, 1])
    dt = 1 / ncw / V
    n = 8 * ncw
    m = dict(model([slab(300.0, ncw)], a, V=V), time=dict(num_steps=n, delta_time=dt))
    L = lift_history(run_unsteady(m, prescribed_wake=True)) / (2 * np.pi * np.radians(a))
    s = np.arange(n) * dt * V / 0.5
    phi = 1 - 0.165 * np.exp(-0.0455 * s) - 0.335 * np.exp(-0.3 * s)
    i = s >= 4
    mon.true("wagner", np.abs(L - phi)[i].max() < 0.06, f"lift fractions {L[i][:4]} against {phi[i][:4]}")
    j = (s > 0.5) & (s < 4)
    mon.true("wagner", np.abs(L - phi)[j].max() < 0.17, f"early lift fractions {L[j]} against {phi[j]}")


def do_theodorsen(case, rng, mon):
    k, ncw, V, span = case["k"], 6, R(rng, 5, 20), 300.0
    b = 0.5
    om = k * V / b
    T = float(2 * np.pi / om)
    n = int(round(T * V * ncw))
    dt = T / n
    H = lambda z: hankel2(1, z) / (hankel2(1, z) + 1j * hankel2(0, z))
    Ck = H(k)
    q = 0.5 * V * V
    if case["motion"] == "heave":
        A = R(rng, 0.02, 0.08)
        w = slab(span, ncw, motion=dict(z_le_amplitude=A, z_le_period=T, z_le_spacing="sine"))
        h = 1j * A
        want = (np.pi * b * b * (-(om**2)) * h + 2 * np.pi * V * b * Ck * 1j * om * h) / q
    else:
        A = R(rng, 1, 3)
        w = slab(span, ncw, pitch=dict(pitching_amplitude=A, pitching_period=T, pitching_spacing="sine"))
        al = -1j * np.radians(A)
        # About the leading edge.
        want = (np.pi * b * b * (V * 1j * om * al + b * (-(om**2)) * al) + 2 * np.pi * V * b * Ck * (V * al + 1.5 * b * 1j * om * al)) / q
    m = dict(model([w], 0.0, V=V), time=dict(num_steps=2 * n, delta_time=dt))
    L = lift_history(run_unsteady(m, prescribed_wake=True))[n:]
    t = np.arange(n, 2 * n) * dt
    c = 2 / n * np.sum(L * np.exp(-1j * om * t))
    clause = "theodorsen-" + case["motion"]
    within(mon, clause, abs(c / want), 0.9, 1.25, f"lift amplitude over theory at reduced frequency {k}")
    within(mon, clause, float(np.degrees(np.angle(c / want))), -8.0, 12.0, f"phase against theory at reduced frequency {k}")
