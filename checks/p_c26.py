"""C26: metamorphic relations between the recorded histories of unsteady runs of transformed models."""
import copy

import numpy as np

import ref
from common import Abort
from models_lib import R, choice, run_unsteady, totals
from transform import MIRROR, mirror, scale_lengths, scale_speed, scale_times, translate
from unsteady_ref import VARIANTS, Step, gen

PROP = "C26"
LEVEL_RULE = (
    "A case is one random unsteady model (static or moving, prescribed or free wake) and one transformation; the original and the transformed "
    "model are both simulated and every step's loads, circulations and wake compared. Non-trivial when the original carries load."
)
LAWS = ["lengths-and-times", "speed", "density", "translation", "reorder-wings", "reorder-airplanes", "mirror", "far-apart", "more-steps"]
REQUIRED = LAWS + ["wake", "finals"]
ASSUMPTIONS = ["airplanes three thousand model sizes apart count as very far apart (agreement to 1e-4)"]
CASE_LIMIT = dict(quick=120, thorough=300)


def make_cases(tier):
    out = []
    for r in range(3 if tier == "quick" else 20):
        for v, kw in enumerate(VARIANTS):
            for law in LAWS:
                if law == "reorder-wings" and kw["nwings"] == 1 or law == "reorder-airplanes" and kw["nair"] == 1:
                    continue
                out.append(dict(law=law, variant=v, rep=r))
    return out


def histories(s):
    return [[totals(a) for a in p.airplanes] for p in s.steady_problems]


def finals(s):
    p = s.unsteady_problem
    if p.max_period == 0:
        names = [f"final_near_field_{q}_wind_axes" for q in ("forces", "moments", "force_coefficients", "moment_coefficients")]
    else:
        names = [f"final_mean_near_field_{q}_wind_axes" for q in ("forces", "moments", "force_coefficients", "moment_coefficients")]
    return [np.array(getattr(p, n), float) for n in names]


def run_case(case, rng, mon):
    law, v = case["law"], case["variant"]
    free = bool(rng.integers(2))
    m = gen(v, rng, free)
    if law == "mirror":
        for a in m["airplanes"]:
            for w in a["wings"]:
                for s in w["sections"]:
                    # Where a control surface ends the wake continues only one of the two trailing edges.
                    if "control_surface_type" in s:
                        for k in ("control_surface_deflection", "control_surface_hinge_point"):
                            s[k] = w["sections"][0][k]
                        s["control_surface_type"] = "symmetric"
                    # Only whole-wing motion and pitching can be described from the other tip or in a tilted plane.
                    if s.get("motion") and (not w["symmetric"] or w.get("unit_normal_vector") is not None):
                        s["motion"] = {k: x for k, x in s["motion"].items() if "pitch" in k} if w.get("unit_normal_vector") is None else {}
    mon.sample = m
    s = run_unsteady(m)
    n = len(s.steady_problems)
    S = [Step(s, k) for k in range(n)]
    for k, o in enumerate(S):
        legs = o.legs().mean(2).reshape(-1, 3)
        if o.singular(legs) or o.singular(o.q["colloc"]) or free and len(o.wake) and o.singular(o.wake.reshape(-1, 3)):
            raise Abort("near-singular geometry")
    if max(np.abs(o.G).max() for o in S) > 200 * m["op"]["velocity"] * np.ptp(S[0].C.reshape(-1, 3), axis=0).max():
        raise Abort("ill-conditioned: circulations far beyond anything physical, rounding decides")
    base, fin = histories(s), finals(s)
    Fp = [np.array([p.near_field_force_geometry_axes for p in o.panels], float) for o in S]
    sF = max(np.abs(f).sum(0).max() for f in Fp)
    arm = max(max(np.abs(o.C - a.xyz_ref).max() for a in o.airplanes) for o in S)
    q = [ref.q_of(o.op) for o in S]
    mon.trivial = not sF > 0
    mon.state(law, v, n, free)
    A = [(a.s_ref, min(a.b_ref, a.c_ref)) for a in S[0].airplanes]
    gs = max(np.abs(o.G).max() for o in S)

    def loads(got, want, order, fF=1.0, fM=1.0, sg=None, coef=True, tol=1e-6, upto=None):
        a, b = (np.ones(3), np.ones(3)) if sg is None else sg
        for k in range(min(len(want), upto or n)):
            for i, j in enumerate(order):
                g, w = got[k][i], want[k][j]
                mon.close(law, g[0], w[0] * fF * a, tol, sF * fF, f"force at step {k}")
                mon.close(law, g[1], w[1] * fM * b, tol, sF * arm * fM, f"moment at step {k}")
                if coef:
                    mon.close(law, g[2], w[2] * a, tol, sF / q[k] / A[j][0], f"force coefficients at step {k}")
                    mon.close(law, g[3], w[3] * b, tol, sF * arm / q[k] / A[j][0] / A[j][1], f"moment coefficients at step {k}")

    def last(s2, order, fF=1.0, fM=1.0, sg=None, coef=True, tol=1e-6):
        a, b = (np.ones(3), np.ones(3)) if sg is None else sg
        # The averaging window is a whole number of steps: a period that is a whole number of them rounds either way.
        T = s.unsteady_problem.max_period / s.unsteady_problem.delta_time
        if T and abs(T - round(T)) < 1e-9:
            return
        g = finals(s2)
        qm = min(q)
        for i, j in enumerate(order):
            mon.close("finals", g[0][i], fin[0][j] * fF * a, tol, sF * fF, "force")
            mon.close("finals", g[1][i], fin[1][j] * fM * b, tol, sF * arm * fM, "moment")
            if coef:
                mon.close("finals", g[2][i], fin[2][j] * a, tol, sF / qm / A[j][0], "force coefficients")
                mon.close("finals", g[3][i], fin[3][j] * b, tol, sF * arm / qm / A[j][0] / A[j][1], "moment coefficients")

    def wakes(s2, pos, fG=1.0, fL=1.0, tol=1e-6, upto=None):
        size = max(np.abs(o.wake).max() if len(o.wake) else 0.0 for o in S) + np.abs(S[0].C).max()
        for k in range(upto or n):
            o2 = Step(s2, k)
            mon.close(law, o2.G, S[k].G * fG, tol, gs * fG, f"circulations at step {k}")
            if k:
                mon.close("wake", o2.wG, S[k].wG * fG, tol, gs * fG, f"wake circulations at step {k}")
                mon.close("wake", o2.wake, pos(S[k].wake), tol, size * fL, f"wake corners at step {k}")

    order = list(range(len(S[0].airplanes)))
    if law == "lengths-and-times":
        # Every size comes up in every run, the extremes more than once.
        fL, fT = [0.002, 40.0, 0.0005, 3.7, 0.03, 0.3][(v + case["rep"]) % 6], float(choice(rng, [0.05, 0.4, 3.0, 1.0]))
        m2 = scale_speed(scale_times(scale_lengths(m, fL), fT), fL / fT)
        m2["op"]["nu"] *= fL * fL / fT
        tol = 2e-6
        s2 = run_unsteady(m2)
        f = fL ** 4 / fT ** 2
        loads(histories(s2), base, order, f, f * fL, tol=tol)
        last(s2, order, f, f * fL, tol=tol)
        wakes(s2, lambda x: x * fL, fL * fL / fT, fL, tol=tol)
    elif law == "speed":
        f = float(10 ** rng.uniform(-2, 1.5)) if v % 3 else [1e-3, 50.0][v // 3 % 2]
        m2 = scale_times(scale_speed(m, f), 1 / f)
        m2["op"]["nu"] *= f
        s2 = run_unsteady(m2)
        loads(histories(s2), base, order, f * f, f * f)
        last(s2, order, f * f, f * f)
        wakes(s2, lambda x: x, f)
    elif law == "density":
        f = float(10 ** rng.uniform(-3, 3))
        m2 = copy.deepcopy(m)
        m2["op"]["density"] *= f
        s2 = run_unsteady(m2)
        loads(histories(s2), base, order, f, f)
        last(s2, order, f, f)
        wakes(s2, lambda x: x)
    elif law == "translation":
        d = rng.uniform(-10, 10, 3) * np.abs(S[0].C).max()
        s2 = run_unsteady(translate(m, d))
        loads(histories(s2), base, order)
        last(s2, order)
        wakes(s2, lambda x: x + d)
    elif law == "reorder-wings":
        m2 = copy.deepcopy(m)
        for a in m2["airplanes"]:
            a["wings"] = a["wings"][1:] + a["wings"][:1]
        s2 = run_unsteady(m2)
        loads(histories(s2), base, order, coef=False)
        last(s2, order, coef=False)
        for k in range(n):
            for a1, a2 in zip(s.steady_problems[k].airplanes, s2.steady_problems[k].airplanes):
                for w1, w2 in zip(list(a1.wings[1:]) + list(a1.wings[:1]), a2.wings):
                    f1, f2 = (np.array([x.near_field_force_geometry_axes for x in np.ravel(w.panels)]) for w in (w1, w2))
                    mon.close(law, f2, f1, 1e-6, np.abs(Fp[k]).max(), f"panels at step {k}")
    elif law == "reorder-airplanes":
        m2 = copy.deepcopy(m)
        order = order[1:] + order[:1]
        m2["airplanes"] = [m2["airplanes"][i] for i in order]
        s2 = run_unsteady(m2)
        loads(histories(s2), base, order)
        last(s2, order)
    elif law == "mirror":
        s2 = run_unsteady(mirror(m))
        sg = (np.array([1, -1, 1]), np.array([-1, 1, -1]))
        # The default reference dimensions of a single-sided wing follow its root section.
        coef = all("b_ref" in a and "c_ref" in a and "s_ref" in a for a in m["airplanes"]) or all(a["wings"][0]["symmetric"] for a in m["airplanes"])
        loads(histories(s2), base, order, sg=sg, coef=coef)
        last(s2, order, sg=sg, coef=coef)
        for k in range(1, n):
            o, o2 = S[k], Step(s2, k)
            for off, nr, nc in o.wake_slices:
                # Left and right change places.
                w = o.wake[off:off + nr * nc].reshape(nr, nc, 4, 3)[:, ::-1][:, :, [1, 0, 3, 2]] @ MIRROR
                mon.close("wake", o2.wake[off:off + nr * nc].reshape(nr, nc, 4, 3), w, 1e-6, np.abs(o.wake).max(), f"wake corners at step {k}")
                g = o.wG[off:off + nr * nc].reshape(nr, nc)[:, ::-1]
                mon.close("wake", o2.wG[off:off + nr * nc].reshape(nr, nc), g, 1e-6, gs, f"wake circulations at step {k}")
    elif law == "far-apart":
        m2 = gen(int(rng.integers(2, 12)), rng, free)
        d = rng.normal(size=3) * [0.3, 1, 1]
        d = d / np.linalg.norm(d) * 3e3 * (np.abs(S[0].C).max() + 5)
        far = translate(dict(m2, airplanes=m2["airplanes"]), d)
        both = copy.deepcopy(m)
        first = bool(rng.integers(2))
        both["airplanes"] = m["airplanes"] + far["airplanes"] if first else far["airplanes"] + m["airplanes"]
        s2 = run_unsteady(both)
        got = histories(s2)
        loads([h[:len(order)] if first else h[-len(order):] for h in got], base, order, tol=1e-4)
    elif law == "more-steps":
        m2 = copy.deepcopy(m)
        m2["time"]["num_steps"] = n + int(rng.integers(1, 5))
        s2 = run_unsteady(m2)
        loads(histories(s2), base, order, tol=1e-9)
        wakes(s2, lambda x: x, tol=1e-9)
