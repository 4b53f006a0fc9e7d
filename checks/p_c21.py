"""C21: what convergence studies return vs an independently solved table of every setting and an independent stopping rule over it."""
import copy
import itertools

import numpy as np

from models_lib import HS, R, RING, add_motion, build_airplane, build_steady, build_unsteady, choice, gen_steady, run_steady, run_unsteady, corners, totals
import pterasoftware as ps
from common import Abort

PROP = "C21"
LEVEL_RULE = (
    "A case is one model with the loads of every setting in the ranges solved independently, studied with several criteria placed between the observed changes "
    "so that different settings are the first to qualify (or none); non-trivial when the criterion is clear of every observed change."
)
REQUIRED = ["in-range", "meets-criterion", "first-qualifying", "nothing-found", "model-unchanged", "unsteady-first", "unsteady-nothing", "saturated", "single", "free-wake", "mask", "multi", "coarser-ref", "bad-solver"]
ASSUMPTIONS = [
    "a wing section is as long as its leading edges are apart across the wing's chordwise direction",
    "a setting qualifies when its monitored loads differ from those of each next-coarser setting by less than the criterion (percent), as documented; the coarser values are returned",
]
CASE_LIMIT = dict(quick=300, thorough=900)
NAMES = {HS: "steady horseshoe vortex lattice method", RING: "steady ring vortex lattice method"}
AR = [(4, 1), (3, 2), (2, 1), (5, 3), (2, 2), (1, 1), (3, 3)]
CP = [(1, 4), (2, 5), (3, 5), (2, 2), (3, 4)]


def make_cases(tier):
    out = []
    reps = 3 if tier == "quick" else 12
    for r in range(reps):
        for k in (HS, RING):
            for i, (ar, cp) in enumerate([((4, 1), (1, 4)), ((3, 2), (2, 5)), ((2, 2), (1, 4)), ((2, 1), (2, 2)), ((5, 3), (1, 3)), ((1, 1), (1, 3)), ((3, 1), (3, 5)), ((2, 2), (2, 2)), ((6, 4), (2, 3)), ((2, 1), (1, 5))]):
                out.append(dict(kind="steady", solver=k, ar=ar, cp=cp, nair=1 + (i + r) % 2, rep=r))
        for i, (wk, ln, ar, cp) in enumerate([
            ((True, True), (1, 3), (2, 1), (1, 2)), ((True, True), (2, 2), (2, 2), (1, 3)), ((True, False), (1, 3), (2, 1), (2, 2)), ((False, True), (2, 3), (3, 2), (1, 2)),
            ((True, True), (1, 2), (1, 1), (1, 2)), ((True, False), (1, 1), (3, 1), (1, 3)), ((True, True), (1, 3), (3, 3), (2, 2)), ((True, True), (2, 3), (3, 2), (1, 2)),
            ((True, True), (2, 2), (2, 2), (2, 2)), ((True, True), (1, 1), (1, 1), (1, 2)), ((True, True), (4, 4), (2, 2), (1, 1)),
        ]):
            for static in (True, False):
                out.append(dict(kind="unsteady", wake=wk, length=ln, ar=ar, cp=cp, static=static, nair=1 + (i + r + static) % 2, mask=(i + 2 * static + r) % 4, rep=r))
    # Finer meshes than the rest, one or two settings of each.
    for r in range(1 if tier == "quick" else 4):
        for i, (ar, cp) in enumerate([((5, 4), (6, 8)), ((4, 4), (9, 12)), ((3, 3), (7, 8)), ((6, 4), (10, 10)), ((8, 7), (5, 7))]):
            out.append(dict(kind="steady", solver=(HS, RING)[(i + r) % 2], ar=ar, cp=cp, nair=1, rep=r))
        for i, (wk, ln, ar, cp) in enumerate([((True, True), (1, 1), (6, 6), (6, 8)), ((True, True), (2, 2), (7, 6), (7, 7)), ((True, True), (1, 2), (8, 8), (8, 9)), ((True, True), (1, 1), (5, 4), (5, 6)),
                                              ((True, False), (1, 2), (4, 1), (1, 2)), ((False, True), (1, 1), (5, 2), (2, 3)), ((True, False), (1, 5), (2, 2), (1, 1)), ((True, False), (1, 1), (3, 3), (1, 6))]):
            out.append(dict(kind="unsteady", wake=wk, length=ln, ar=ar, cp=cp, static=bool((i + r) % 2), nair=1, mask=i % 4, rep=r))
    out.append(dict(kind="bad-solver", rep=0))
    return out


def length(w, s, t):
    """A wing section's length across the wing's chordwise direction."""
    d = [t[k] - s[k] for k in ("x_le", "y_le", "z_le")]
    return float(np.linalg.norm(np.cross(d, w.get("unit_chordwise_vector", [1.0, 0.0, 0.0]))))


ORIENTS = [("std",), ("std",), ("std", "vertical"), ("tilt",), ("incidence",), ("std", "tilt"), ("vertical",), ("general",), ("std", "fin")]


def setting(m, ar, cp):
    """The model with the given panel aspect ratio and chordwise panels."""
    m = copy.deepcopy(m)
    for a in m["airplanes"]:
        for k in ("s_ref", "c_ref", "b_ref"):
            a.pop(k, None)
        for w in a["wings"]:
            w["num_chordwise_panels"] = cp
            ss = w["sections"]
            for s, t in zip(ss[:-1], ss[1:]):
                L = length(w, s, t)
                c = (s["chord"] + t["chord"]) / 2
                s["num_spanwise_panels"] = max(1, round(L * cp / (c * ar)))
            ss[-1]["num_spanwise_panels"] = 1
    return m


def clear_of_rounding(m, ars, cps):
    for a in m["airplanes"]:
        for w in a["wings"]:
            ss = w["sections"]
            for s, t in zip(ss[:-1], ss[1:]):
                for ar in ars:
                    for cp in cps:
                        x = length(w, s, t) * cp / ((s["chord"] + t["chord"]) / 2 * ar)
                        if abs(x % 1 - 0.5) < 1e-6:
                            return False
    return True


def change(x, y):
    """Largest change from the coarser x to the finer y, in percent."""
    return float(np.max(100 * np.abs((y - x) / x)))


def qualify(table, axes, crit, saturated):
    """Index returned and the index examined, for the first setting that qualifies."""
    for idx in itertools.product(*[range(len(a)) for a in axes]):
        got = []
        for d, a in enumerate(axes):
            if len(a) == 1:
                got.append(idx[d])
                continue
            if idx[d] > 0:
                prev = idx[:d] + (idx[d] - 1,) + idx[d + 1:]
                if change(table[prev], table[idx]) < crit:
                    got.append(idx[d] - 1)
                    continue
            if saturated(d, a[idx[d]]):
                got.append(idx[d])
                continue
            break
        else:
            return tuple(got), idx
    return None


def changes(table, axes):
    out = []
    for idx in itertools.product(*[range(len(a)) for a in axes]):
        for d in range(len(axes)):
            if idx[d] > 0:
                out.append(change(table[idx[:d] + (idx[d] - 1,) + idx[d + 1:]], table[idx]))
    return np.array(sorted(out))


def criteria(rng, ch, n):
    """Criteria clear of every observed change, one below all of them and two close to one."""
    if not len(ch):
        return [5.0]
    if not np.all(np.isfinite(ch)):
        raise Abort("a monitored load vanishes")
    out = [float(ch[0]) * 0.5, float(ch[-1]) * 1.5]
    gaps = [(a, b) for a, b in zip(ch[:-1], ch[1:]) if b > 1.02 * a]
    order = rng.permutation(len(gaps)) if gaps else []
    for i in order[: n - 2]:
        out.append(float(np.sqrt(gaps[i][0] * gaps[i][1])))
    # Just either side of one observed change.
    x = float(ch[int(rng.integers(len(ch)))])
    for c in (x * (1 + 3e-5), x * (1 - 3e-5)):
        if c > 0 and np.abs(ch / c - 1).min() > 1e-5:
            out.append(float(c))
    return out


def snapshot(planes):
    return [[corners(w) for w in a.wings] for a in planes], [(a.name, a.s_ref, a.c_ref, a.b_ref, a.x_ref, a.y_ref, a.z_ref, a.weight) for a in planes]


def same(a, b):
    return a[1] == b[1] and all(np.array_equal(x, y) for u, v in zip(a[0], b[0]) for x, y in zip(u, v))


def judge(mon, case, r, table, axes, names, crit, saturated, tag):
    want = qualify(table, axes, crit, saturated)
    u = "unsteady-" if tag == "unsteady" else ""
    r = list(r)
    if not mon.true("shape", len(r) == len(axes), f"returned {r}"):
        return
    desc = f"criterion {crit}, ranges {dict(zip(names, [list(a) for a in axes]))}"
    if all(x is None for x in r):
        if want is None:
            mon.true((u or "") + ("nothing" if u else "nothing-found"), True)
        else:
            mon.fail((u or "") + ("first" if u else "first-qualifying"), f"nothing returned although {[a[i] for a, i in zip(axes, want[0])]} qualifies; {desc}")
        return
    ok = mon.true("in-range", all(x is not None and x in list(a) for x, a in zip(r, axes)), f"returned {r}; {desc}")
    if not ok:
        return
    got = tuple(list(a).index(x) for x, a in zip(r, axes))
    # Each free parameter: refining by one step changes the loads by less than the criterion at the setting examined.
    if want is None:
        mon.fail((u or "") + ("nothing" if u else "nothing-found"), f"returned {r} although no setting qualifies; {desc}")
        return
    best = [a[i] for a, i in zip(axes, want[0])]
    mon.true((u or "") + ("first" if u else "first-qualifying"), list(got) == list(want[0]), f"returned {r}, the first setting that qualifies gives {best}; {desc}")
    fine = want[1]
    for d, a in enumerate(axes):
        if len(a) == 1:
            mon.true("single", True)
        elif got[d] < fine[d]:
            prev = fine[:d] + (fine[d] - 1,) + fine[d + 1:]
            mon.true("meets-criterion", change(table[prev], table[fine]) < crit, f"{names[d]} {a[got[d]]}: refining changes the loads by {change(table[prev], table[fine])} %; {desc}")
        elif names[d] == "panel aspect ratio":
            mon.true("saturated", a[got[d]] == 1, f"aspect ratio {a[got[d]]} reported without convergence; {desc}")
        elif names[d] == "prescribed wake":
            mon.true("free-wake", a[got[d]] is False, f"prescribed wake reported without convergence; {desc}")


def run_case(case, rng, mon):
    if case["kind"] == "bad-solver":
        m = gen_steady(rng, nair=1, nwings=1, nsec=2, ncw=1, nsw=1)
        for nm in ("ring", "", "steady ring vortex lattice", None, "unsteady ring vortex lattice method"):
            try:
                r = ps.convergence.analyze_steady_convergence(ref_problem=build_steady(m), solver_type=nm, num_chordwise_panels_bounds=(1, 2))
                mon.fail("bad-solver", f"solver {nm!r} accepted: {r}")
            except Exception:
                mon.true("bad-solver", True)
        return
    ars = list(range(case["ar"][0], case["ar"][1] - 1, -1))
    cps = list(range(case["cp"][0], case["cp"][1] + 1))
    if case["kind"] == "steady":
        return steady(case, rng, mon, ars, cps)
    return unsteady(case, rng, mon, ars, cps)


def steady(case, rng, mon, ars, cps):
    while True:
        m = gen_steady(rng, nair=case["nair"], nwings=2 if "fin" in (orients := choice(rng, ORIENTS)) else int(choice(rng, [1, 1, 2, 3])), nsec=int(choice(rng, [2, 2, 3])), ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)),
                       beta=choice(rng, [0.0, 5.0]), alpha=R(rng, 2, 9), size=1.0, twist=2.0, orients=orients)
        for a in m["airplanes"]:
            a["weight"] = 3.0
        if clear_of_rounding(m, ars, cps):
            break
    mon.sample = m
    axes = [ars, cps]
    table = {}
    for i, ar in enumerate(ars):
        for j, cp in enumerate(cps):
            s = run_steady(setting(m, ar, cp), case["solver"])
            table[i, j] = np.array([[np.linalg.norm(totals(a)[2]), np.linalg.norm(totals(a)[3])] for a in s.airplanes])
    sat = lambda d, v: d == 0 and v == 1
    results = {}
    for crit in criteria(rng, changes(table, axes), 6):
        prob = build_steady(m)
        before = snapshot(prob.airplanes)
        opb = dict(vars(prob.operating_point))
        r = ps.convergence.analyze_steady_convergence(ref_problem=prob, solver_type=NAMES[case["solver"]], panel_aspect_ratio_bounds=tuple(case["ar"]), num_chordwise_panels_bounds=tuple(case["cp"]), convergence_criteria=crit)
        mon.state("steady", case["solver"], tuple(case["ar"]), tuple(case["cp"]), str(r), case["nair"])
        judge(mon, case, r, table, axes, ["panel aspect ratio", "chordwise panels"], crit, sat, "steady")
        mon.true("model-unchanged", same(before, snapshot(prob.airplanes)) and opb == dict(vars(prob.operating_point)), "the studied model was changed")
        results[crit] = list(r)
        if case["nair"] > 1:
            mon.true("multi", True)
    # The answer does not depend on how the studied model itself was paneled.
    crit = list(results)[-1]
    m2 = setting(m, choice(rng, [1, 3]), int(rng.integers(1, 4)))
    r = ps.convergence.analyze_steady_convergence(ref_problem=build_steady(m2), solver_type=NAMES[case["solver"]], panel_aspect_ratio_bounds=tuple(case["ar"]), num_chordwise_panels_bounds=tuple(case["cp"]), convergence_criteria=crit)
    mon.true("coarser-ref", list(r) == results[crit], f"{r} for the model repaneled, {results[crit]} before")


MASKS = [None, [True, False, True, False, True, False], [True] * 6, [False, False, True, False, False, False]]


def unsteady(case, rng, mon, ars, cps):
    static = case["static"]
    mask = MASKS[case["mask"]]
    # With every coefficient monitored by itself, none of them may vanish by symmetry.
    skewed = mask is None and bool(rng.integers(2))
    beta = 6.0 if skewed or (mask is not None and all(mask)) else 0.0
    for _ in range(50):
        m = gen_steady(rng, nair=case["nair"], nwings=2 if "fin" in (orients := choice(rng, ORIENTS)) else 1, nsec=2, ncw=int(rng.integers(1, 3)), nsw=int(rng.integers(1, 3)), beta=beta, alpha=R(rng, 3, 8), velocity=R(rng, 5, 15), size=1.0, twist=2.0, orients=orients,
                       control="none", symmetric=not beta, planform="rect" if rng.integers(2) else "random")
        for a in m["airplanes"]:
            for w in a["wings"]:
                for s, t in zip(w["sections"][:-1], w["sections"][1:]):
                    t["y_le"] = s["y_le"] + min(t["y_le"] - s["y_le"], 1.6)
        if not static:
            T = R(rng, 1.5, 2.5) / m["op"]["velocity"] * 1.0
            for a in m["airplanes"]:
                for w in a["wings"]:
                    add_motion(rng, dict(airplanes=[dict(wings=[w])], op=dict(velocity=m["op"]["velocity"])), T, what=("sections", "wing"), p=0.6)
                    # One common period, so that cycles are whole.
                    for d in [w] + w["sections"]:
                        for k in list(d.get("motion") or {}):
                            if k.endswith("_period"):
                                d["motion"][k] = T
                    w["sections"][-1].setdefault("motion", {}).update(pitching_amplitude=5.0, pitching_period=T, pitching_spacing="sine")
        if clear_of_rounding(m, ars, cps):
            break
    mon.sample = m
    wakes = [w for w, on in zip((True, False), case["wake"]) if on]
    lens = list(range(case["length"][0], case["length"][1] + 1))
    axes = [wakes, lens, ars, cps]
    table = {}
    for idx in itertools.product(*[range(len(a)) for a in axes]):
        wk, ln, ar, cp = [a[i] for a, i in zip(axes, idx)]
        mm = setting(m, ar, cp)
        mm["time"] = {"num_chords" if static else "num_cycles": ln}
        s = run_unsteady(mm, only_final=True, prescribed_wake=wk)
        p = s.unsteady_problem
        pre = "final_near_field_" if static else "final_rms_near_field_"
        rows = []
        for i in range(len(m["airplanes"])):
            f, mo = (np.asarray(getattr(p, f"{pre}{q}_coefficients_wind_axes")[i], float) for q in ("force", "moment"))
            rows.append([np.linalg.norm(f), np.linalg.norm(mo)] if mask is None else np.concatenate([f, mo])[np.array(mask)])
        table[idx] = np.array(rows)
        if np.any(np.abs(table[idx]) < 1e-9):
            raise Abort("a monitored load vanishes")
    sat = lambda d, v: (d == 0 and v is False) or (d == 2 and v == 1)
    names = ["prescribed wake", "wake length", "panel aspect ratio", "chordwise panels"]
    for crit in criteria(rng, changes(table, axes), 4):
        m1 = copy.deepcopy(m)
        m1["time"] = dict(num_steps=2)
        prob = build_unsteady(m1)
        bases = [am.base_airplane for am in prob.movement.airplane_movements]
        before = snapshot(bases)
        kw = {} if mask is None else dict(coefficient_mask=list(mask))
        kw["num_chords_bounds" if static else "num_cycles_bounds"] = tuple(case["length"])
        r = ps.convergence.analyze_unsteady_convergence(ref_problem=prob, prescribed_wake=case["wake"][0], free_wake=case["wake"][1], panel_aspect_ratio_bounds=tuple(case["ar"]),
                                                        num_chordwise_panels_bounds=tuple(case["cp"]), convergence_criteria=crit, **kw)
        mon.state("unsteady", static, tuple(case["wake"]), str(r), case["mask"], case["nair"])
        judge(mon, case, r, table, axes, names, crit, sat, "unsteady")
        mon.true("model-unchanged", same(before, snapshot(bases)), "the studied model was changed")
        if mask is not None:
            mon.true("mask", True)
        if case["nair"] > 1:
            mon.true("multi", True)
