"""C01: induced velocities of vortex elements vs an independent Biot-Savart reference."""
import numpy as np

import pterasoftware as ps
import ref
from common import Abort
from models_lib import R, choice, gen_steady, run_steady

PROP = "C01"
LEVEL_RULE = (
    "A case is a random set of points and ring or horseshoe vortices (kind, core mode, size, degenerate shapes and "
    "point placements stratified) or a solved steady model whose panels are queried; non-trivial when it has at least "
    "one vortex with strength and one point. Distinct by case descriptor."
)
REQUIRED = ["far", "sum-vs-reference", "per-vortex-vs-reference", "collapsed-equals-sum", "finite", "linear", "rotation",
            "translation", "permutation", "panel-query", "unit-query", "on-line-zero", "batching"]
ASSUMPTIONS = ["core radius 2 sqrt(1.25643 (nu + 1e-4 |strength|) age), i.e. the documented Lamb-Oseen/Squire model",
               "points nearer to a leg's line than about 1e-8 of its length are only required to give a finite result bounded by the reference"]

AE = ps.aerodynamics


def make_cases(tier):
    n = 16 if tier == "quick" else 80
    out = []
    for rep in range(n):
        for el in ("ring", "horseshoe"):
            for age in ("none", "zero", "pos", "mixed"):
                for shape in ("general", "planar", "degenerate", "large", "small", "tiny", "huge", "many"):
                    out.append(dict(kind="kernel", el=el, age=age, shape=shape, rep=rep))
    for rep in range(n * 2):
        for s in ("horseshoe", "ring"):
            out.append(dict(kind="panel", solver=s, rep=rep))
    return out


def call(fn, el, pts, v, g, ages, nu):
    return getattr(AE, f"{fn}_velocities_from_{el}_vortices")(
        points=pts, back_right_vortex_vertices=v[:, 3], front_right_vortex_vertices=v[:, 1],
        front_left_vortex_vertices=v[:, 0], back_left_vortex_vertices=v[:, 2], strengths=g, ages=ages, nu=nu)


def reference(el, pts, v, g, ages, nu):
    f = ref.ring_velocity if el == "ring" else ref.horseshoe_velocity
    return f(pts, v[:, 0], v[:, 1], v[:, 2], v[:, 3], g, ages, nu)


def legs(el, v):
    L = [(v[:, 3], v[:, 1]), (v[:, 1], v[:, 0]), (v[:, 0], v[:, 2])]
    if el == "ring":
        L.append((v[:, 2], v[:, 3]))
    return L


def none(el, M, N, rng, mon):
    """No vortices induce nothing; no points get nothing."""
    v, pts, g = rng.normal(size=(M, 4, 3)), rng.normal(size=(N, 3)), rng.normal(size=M)
    mon.sample = dict(element=el, vortices=M, points=N)
    mon.state(el, M, N)
    for ages in (None, np.ones(M)):
        for fn, shape in (("collapsed", (N, 3)), ("expanded", (N, M, 3))):
            got = np.asarray(call(fn, el, pts, v, g, ages, 1e-3))
            mon.true("sum-vs-reference", got.shape == shape and not got.any(), f"{fn}: {got.shape} for {M} vortices and {N} points")


def run_case(case, rng, mon):
    if case["kind"] == "panel":
        return run_panel(case, rng, mon)
    el, shape = case["el"], case["shape"]
    M, N = int(rng.integers(1, 7)), int(rng.integers(1, 9))
    if shape == "many":
        # Few to many of both, or none at all.
        M, N = (int(choice(rng, [0, 1, 2, 33, 70, 150, 400])) for _ in range(2))
        if not M or not N:
            return none(el, M, N, rng, mon)
    size = {"large": 50.0, "small": 0.05, "tiny": 2e-4, "huge": 3e4}.get(shape, 1.0)
    v = np.zeros((M, 4, 3))
    for j in range(M):
        c = rng.uniform(-3, 3, 3) * size
        q = np.array([[0, -1, 0], [0, 1, 0], [1, -1, 0], [1, 1, 0]]) * rng.uniform(0.3, 2, (1, 3))
        if shape != "planar":
            q = q + rng.uniform(-0.3, 0.3, (4, 3))
        if el == "horseshoe":
            d = rng.uniform(-0.3, 0.3, 3) + [1, 0, 0]
            q[2] = q[0] + d * 20
            q[3] = q[1] + d * 20
        if shape == "degenerate" and j % 2 == 0:
            which = int(rng.integers(3))
            if which == 0:
                q[1] = q[0]
            elif which == 1:
                q[3] = q[2]
            else:
                q[:] = q[0] if el == "ring" else q
        v[j] = c + q * size
    g = rng.uniform(-8, 8, M) * choice(rng, [0.01, 1, 30])
    if rng.integers(3) == 0:
        g[rng.integers(M)] = 0.0
    nu = float(choice(rng, [0.0, 15.06e-6, 1e-3, 1e-2]))
    ages = None
    if case["age"] == "zero":
        ages = np.zeros(M)
    elif case["age"] == "pos":
        ages = rng.uniform(0.001, 5, M)
    elif case["age"] == "mixed":
        ages = rng.uniform(0, 3, M) * (rng.random(M) < 0.6)
    pts = rng.uniform(-5, 5, (N, 3)) * size
    mon.sample = dict(element=el, vertices=v, strengths=g, ages=ages, nu=nu, points=pts[:2])
    # Scale: what one of the vortices can induce about a leg length away.
    want = reference(el, pts, v, g, ages, nu)
    sc = np.abs(g).max() / (4 * np.pi * size) * 0.05
    got_c = call("collapsed", el, pts, v, g, ages, nu)
    got_e = call("expanded", el, pts, v, g, ages, nu)
    mon.close("sum-vs-reference", got_c, want.sum(1), 1e-7, sc)
    mon.close("per-vortex-vs-reference", got_e, want, 1e-7, sc)
    mon.close("collapsed-equals-sum", got_c, np.asarray(got_e).sum(1), 1e-9, sc)
    mon.state(el, case["age"], shape, M, N, nu)
    if ages is None:
        mon.close("batching", call("collapsed", el, pts, v, g, np.zeros(M), nu), got_c, 1e-12, sc, "no ages vs zero ages")
    # Each point on its own gives the same.
    some = range(N) if N < 10 else sorted({0, N - 1, *rng.integers(N, size=6)})
    one = np.vstack([call("collapsed", el, pts[i : i + 1], v, g, ages, nu) for i in some])
    mon.close("batching", one, got_c[list(some)], 1e-10, sc * max(1, M / 10))
    # Order of vortices and points.
    pp, pv = rng.permutation(N), rng.permutation(M)
    ag = None if ages is None else ages[pv]
    mon.close("permutation", call("collapsed", el, pts[pp], v[pv], g[pv], ag, nu), got_c[pp], 1e-9, sc)
    mon.close("permutation", call("expanded", el, pts[pp], v[pv], g[pv], ag, nu), got_e[pp][:, pv], 1e-12, sc)
    # Linearity without a core.
    if ages is None or not ages.any():
        k = rng.uniform(-3, 3)
        mon.close("linear", call("collapsed", el, pts, v, k * g, ages, nu), k * got_c, 1e-9, sc)
        g2 = rng.uniform(-5, 5, M)
        mon.close("linear", call("collapsed", el, pts, v, g + g2, ages, nu), got_c + call("collapsed", el, pts, v, g2, ages, nu), 1e-8, sc)
    # Rigid motion of everything.
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    t = rng.uniform(-5, 5, 3) * size
    mon.close("translation", call("collapsed", el, pts + t, v + t, g, ages, nu), got_c, 1e-6, sc)
    mon.close("rotation", call("collapsed", el, pts @ Q.T, v @ Q.T, g, ages, nu), got_c @ Q.T, 1e-6, sc)
    # Far away the field fades but does not end.
    far = rng.normal(size=(8, 3))
    far *= (10 ** rng.uniform(1, 4, 8) / np.linalg.norm(far, axis=1))[:, None] * size
    wf = reference(el, far, v, g, ages, nu).sum(1)
    gf = np.asarray(call("collapsed", el, far, v, g, ages, nu))
    ef = np.asarray(call("expanded", el, far, v, g, ages, nu)).sum(1)
    for i in range(8):
        d = np.linalg.norm(far[i])
        sf = np.abs(g).max() * size / (4 * np.pi * d * d)
        mon.close("far", gf[i], wf[i], 1e-6 + 1e-12 * (d / size) ** 2, sf, f"{d / size} sizes away")
        mon.close("far", ef[i], wf[i], 1e-6 + 1e-12 * (d / size) ** 2, sf, f"{d / size} sizes away")
    # Hostile points: exactly on legs, at their ends, on their extensions, and near them.
    hp = []
    for a, b in legs(el, v):
        j = int(rng.integers(M))
        s = rng.uniform(0.1, 0.9)
        hp += [a[j], b[j], a[j] + s * (b[j] - a[j]), b[j] + 1.7 * (b[j] - a[j]), a[j] - 0.6 * (b[j] - a[j])]
        hp.append(a[j] + s * (b[j] - a[j]) + rng.normal(size=3) * size * 1e-3)
    hp = np.array(hp)
    h = call("collapsed", el, hp, v, g, ages, nu)
    he = np.asarray(call("expanded", el, hp, v, g, ages, nu))
    mon.true("finite", np.isfinite(h).all() and np.isfinite(he).all(), lambda: f"{h}")
    # Points near (not on) a leg still follow the law.
    near = hp[5::6]
    mon.close("sum-vs-reference", h[5::6], reference(el, near, v, g, ages, nu).sum(1), 1e-6, sc, "near a leg")
    # A leg contributes nothing on its own line: axis-aligned legs, so points are exactly on it.
    o = np.round(rng.uniform(-2, 2, 3), 2)
    L = float(choice(rng, [0.5, 1.0, 2.0]))
    vv = np.zeros((1, 4, 3))
    vv[0] = o + np.array([[0, 0, 0], [0, L, 0], [L, 0, 0], [L, L, 0]])
    gg, aa = np.array([2.5]), None if ages is None else ages[:1]
    for p, k in (([0, 0.5 * L, 0], 1), ([0, 2 * L, 0], 1), ([0, -L, 0], 1), ([0.25 * L, 0, 0], 2), ([0.25 * L, L, 0], 0)):
        P = (o + np.array(p, float))[None]
        got = call("collapsed", el, P, vv, gg, aa, nu)[0]
        keep = [q for i, q in enumerate(legs(el, vv)) if i != k]
        # Also skip any other leg collinear with the point.
        exp = sum(ref.line_velocity(P, a, b, gg, aa, nu)[0, 0] for a, b in keep)
        mon.close("on-line-zero", got, exp, 1e-6, 2.5 / (4 * np.pi * L), f"point {p}")


def run_panel(case, rng, mon):
    m = gen_steady(rng, nair=1, nwings=1, ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 3)), size=1.0)
    mon.sample = m
    s = run_steady(m, case["solver"], **({}))
    for plane in s.airplanes:
        for w in plane.wings:
            for p in np.ravel(w.panels):
                pt = p.collocation_point + rng.uniform(-1, 1, 3)
                want, unit = np.zeros(3), np.zeros(3)
                g = 0.0
                if p.ring_vortex is not None:
                    r = p.ring_vortex
                    u = ref.ring_velocity(pt[None], *[np.asarray(x)[None] for x in (r.front_left_vertex, r.front_right_vertex, r.back_left_vertex, r.back_right_vertex)], np.ones(1))[0, 0]
                    want, unit, g = want + r.strength * u, unit + u, max(g, abs(r.strength))
                if p.horseshoe_vortex is not None:
                    r = p.horseshoe_vortex
                    u = ref.horseshoe_velocity(pt[None], *[np.asarray(x)[None] for x in (r.left_leg.origin, r.right_leg.termination, r.left_leg.termination, r.right_leg.origin)], np.ones(1))[0, 0]
                    want, unit, g = want + r.strength * u, unit + u, max(g, abs(r.strength))
                sc = np.linalg.norm(unit)
                mon.close("panel-query", np.asarray(p.calculate_induced_velocity(pt)).ravel(), want, 1e-6, sc * max(g, 1e-12))
                mon.close("unit-query", np.asarray(p.calculate_normalized_induced_velocity(pt)).ravel(), unit, 1e-6, sc)
    # The whole model's field is the sum of its panels' fields.
    pts = rng.uniform(-3, 3, (3, 3)) + np.array([0, 0, 2.0])
    tot = np.array([sum(np.asarray(p.calculate_induced_velocity(q)).ravel() for a in s.airplanes for w in a.wings for p in np.ravel(w.panels)) for q in pts])
    from ref import freestream
    got = s.calculate_solution_velocity(points=pts)
    mon.close("panel-query", got, tot + freestream(m["op"]), 1e-7, m["op"]["velocity"], "sum of panel queries")
