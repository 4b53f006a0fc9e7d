"""C04: metamorphic relations between steady runs of transformed models."""
import copy

import numpy as np

import ref
from common import Abort
from models_lib import choice, gen_steady, R, run_steady, totals
from p_c02 import VARIANTS
from steady_ref import Obs, nearly_singular
from transform import mirror, scale_lengths, scale_speed, translate

PROP = "C04"
LEVEL_RULE = (
    "A case is one random well-posed steady model, one solver and one transformation (speed, density, length, "
    "translation, reordering, mirroring, reference point, far companion); the original and transformed models are both "
    "solved and their recorded loads and circulations compared. Non-trivial when the original carries load."
)
REQUIRED = ["speed", "density", "length", "translation", "reorder-wings", "reorder-airplanes", "mirror", "reference-point", "far-apart"]
ASSUMPTIONS = ["airplanes three thousand model sizes apart count as very far apart (agreement to 1e-4)"]
KINDS = list(REQUIRED)


def make_cases(tier):
    reps = 4 if tier == "quick" else 24
    out = []
    for r in range(reps):
        for v in range(len(VARIANTS)):
            for t in KINDS:
                if t == "reorder-wings" and VARIANTS[v].get("nwings") == 1:
                    continue
                if t == "reorder-airplanes" and VARIANTS[v].get("nair") == 1:
                    continue
                for k in ("horseshoe", "ring"):
                    out.append(dict(kind=k, law=t, variant=v, rep=r))
    for r in range(reps):
        for k in ("horseshoe", "ring"):
            for e in range(4):
                out.append(dict(kind=k, law="reorder-wings", variant=-1 - e, rep=r))
                out.append(dict(kind=k, law="reorder-airplanes", variant=-1 - e, rep=r))
    return out


def solve(m, kind):
    s = run_steady(m, kind)
    o = Obs(s.airplanes, kind)
    return s, o


def get(s):
    return [totals(a) for a in s.airplanes]


def cmp(mon, law, got, want, scale, fF=1.0, fM=1.0, signs=None, coef=True, tol=1e-6, coef_scale=None):
    """Compares lists of airplane totals; scale = (force scale, moment scale) of the original."""
    sF, sM = scale
    for g, w, cs in zip(got, want, coef_scale):
        a, b = (np.ones(3), np.ones(3)) if signs is None else signs
        mon.close(law, g[0], w[0] * fF * a, tol, sF * fF, "force")
        mon.close(law, g[1], w[1] * fM * b, tol, sM * fM, "moment")
        if coef:
            mon.close(law, g[2], w[2] * [abs(a[0]), a[1], abs(a[2])], tol, cs[0], "force coefficients")
            mon.close(law, g[3], w[3] * b, tol, cs[1], "moment coefficients")


def run_case(case, rng, mon):
    law, kind, v = case["law"], case["kind"], case["variant"]
    if v >= 0:
        kw = VARIANTS[v]
    elif law == "reorder-wings":
        kw = [dict(nair=1, nwings=2), dict(nair=1, nwings=3), dict(nair=2, nwings=2), dict(nair=1, nwings=2, symmetric=False)][-1 - v]
    else:
        kw = [dict(nair=2), dict(nair=3), dict(nair=2, nwings=1), dict(nair=2, nwings=2)][-1 - v]
    if law == "mirror" and kw.get("sect_normals"):
        kw = dict(kw, symmetric=True)
    m = gen_steady(rng, **kw)
    # The sign conventions are to be seen with real lateral asymmetry.
    if law == "mirror" and m["op"]["beta"] == 0.0 and rng.integers(2):
        m["op"]["beta"] = R(rng, -12, 12)
    mon.sample = m
    s, o = solve(m, kind)
    if nearly_singular(o, np.concatenate([o.q["colloc"], o.ring.reshape(-1, 4, 3)[:, [0, 1, 2, 3]].mean(1) if len(o.ring) else o.q["colloc"]])):
        raise Abort("near-singular geometry")
    if len(o.ring):
        mids = np.concatenate([(o.ring[:, i] + o.ring[:, j]) / 2 for i, j in ((1, 0), (0, 2), (3, 1))])
        if nearly_singular(o, mids):
            raise Abort("bound legs a hair's breadth apart (control surface gap)")
    HG = o.G if kind == "ring" else o.HG
    if np.abs(HG).max() > 100 * m["op"]["velocity"] * np.ptp(o.C.reshape(-1, 3), axis=0).max():
        raise Abort("ill-conditioned: circulations far beyond anything physical, rounding decides")
    base = get(s)
    Fp = np.array([p.near_field_force_geometry_axes for p in o.panels], float)
    sF = np.abs(Fp).sum(0).max()
    refs = np.array([a.xyz_ref for a in s.airplanes])
    arm = max(np.abs(o.C - r).max() for r in refs)
    sc = (sF, sF * arm)
    q = ref.q_of(m["op"])
    cs = [(sF / q / a.s_ref, sF * arm / q / a.s_ref / min(a.b_ref, a.c_ref)) for a in s.airplanes]
    mon.trivial = not sF > 0
    mon.state(law, kind, o.n)
    G = o.G if kind == "ring" else o.HG
    kw = dict(coef_scale=cs)
    if law == "speed":
        f = float(10 ** rng.uniform(-2.5, 2))
        s2, o2 = solve(scale_speed(m, f), kind)
        cmp(mon, law, get(s2), base, sc, f * f, f * f, **kw)
        mon.close(law, o2.G if kind == "ring" else o2.HG, G * f, 1e-7, msg="circulations")
    elif law == "density":
        m2 = copy.deepcopy(m)
        f = float(10 ** rng.uniform(-3, 3))
        m2["op"]["density"] *= f
        s2, o2 = solve(m2, kind)
        cmp(mon, law, get(s2), base, sc, f, f, **kw)
        mon.close(law, o2.G if kind == "ring" else o2.HG, G, 1e-9, msg="circulations")
    elif law == "length":
        f = float(choice(rng, [1e-4, 1e-3, 0.01, 0.1, 0.3, 3.7, 40.0, 300.0, 3e4]))
        tol = 1e-6
        s2, o2 = solve(scale_lengths(m, f), kind)
        cmp(mon, law, get(s2), base, sc, f * f, f ** 3, tol=tol, **kw)
        mon.close(law, o2.G if kind == "ring" else o2.HG, G * f, tol, msg="circulations")
    elif law == "translation":
        d = rng.uniform(-30, 30, 3) * np.abs(o.C).max()
        s2, o2 = solve(translate(m, d), kind)
        cmp(mon, law, get(s2), base, sc, **kw)
    elif law == "reorder-wings":
        m2 = copy.deepcopy(m)
        perms = []
        for a in m2["airplanes"]:
            p = np.roll(np.arange(len(a["wings"])), 1) if len(a["wings"]) > 1 else np.array([0])
            perms.append(p)
            a["wings"] = [a["wings"][i] for i in p]
        s2, _ = solve(m2, kind)
        cmp(mon, law, get(s2), base, sc, coef=False, **kw)
        for a1, a2, p in zip(s.airplanes, s2.airplanes, perms):
            for i, j in enumerate(p):
                f1 = np.array([x.near_field_force_geometry_axes for x in np.ravel(a1.wings[j].panels)])
                f2 = np.array([x.near_field_force_geometry_axes for x in np.ravel(a2.wings[i].panels)])
                mon.close(law, f2, f1, 1e-6, np.abs(Fp).max(), "panels")
    elif law == "reorder-airplanes":
        m2 = copy.deepcopy(m)
        p = np.roll(np.arange(len(m["airplanes"])), 1)
        m2["airplanes"] = [m2["airplanes"][i] for i in p]
        s2, _ = solve(m2, kind)
        cmp(mon, law, get(s2), [base[i] for i in p], sc, coef_scale=[cs[i] for i in p])
    elif law == "mirror":
        s2, _ = solve(mirror(m), kind)
        sg = (np.array([1, -1, 1]), np.array([-1, 1, -1]))
        if all("b_ref" in a and "c_ref" in a and "s_ref" in a for a in m["airplanes"]) or all(a["wings"][0]["symmetric"] for a in m["airplanes"]):
            cmp(mon, law, get(s2), base, sc, signs=sg, **kw)
        else:
            cmp(mon, law, get(s2), base, sc, signs=sg, coef=False, **kw)
    elif law == "reference-point":
        m2 = copy.deepcopy(m)
        W = ref.wind_axes(m["op"]["alpha"], m["op"]["beta"])
        ds = []
        for a in m2["airplanes"]:
            d = rng.uniform(-3, 3, 3) * arm
            ds.append(d)
            for k, x in zip(("x_ref", "y_ref", "z_ref"), d):
                a[k] += float(x)
        s2, _ = solve(m2, kind)
        for g, w, d, a in zip(get(s2), base, ds, s.airplanes):
            mon.close(law, g[0], w[0], 1e-9, sF, "force")
            want = w[1] - W @ np.cross(d, W.T @ w[0])
            mon.close(law, g[1], want, 1e-8, sF * arm * 4, "moment")
            mon.close(law, g[3] * [a.b_ref, a.c_ref, a.b_ref], want / q / a.s_ref, 1e-8, sF * arm * 4 / q / a.s_ref, "moment coefficients")
    elif law == "far-apart":
        m2 = gen_steady(rng, **VARIANTS[int(rng.integers(len(VARIANTS)))])
        size = np.abs(o.C).max() + 5
        d = rng.normal(size=3)
        d[0] = 0.3 * d[0]
        d = d / np.linalg.norm(d) * 3e3 * size
        # Far outside one another's wakes.
        m2["op"] = m["op"]
        far = translate(m2, d)
        both = copy.deepcopy(m)
        both["airplanes"] = m["airplanes"] + far["airplanes"]
        if rng.integers(2):
            both["airplanes"] = far["airplanes"] + m["airplanes"]
        s2, _ = solve(both, kind)
        got = get(s2)
        got = got[: len(base)] if both["airplanes"][0] is m["airplanes"][0] else got[-len(base):]
        cmp(mon, law, got, base, sc, tol=1e-4, **kw)
