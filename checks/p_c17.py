"""C17: reported final results vs recorded steps, and independence of run options."""
import numpy as np

import shipped
from models_lib import R, add_motion, choice, gen_unsteady, run_unsteady, totals
from unsteady_ref import VARIANTS, gen

PROP = "C17"
LEVEL_RULE = (
    "A case is one random unsteady model run with default options and again with other result, streamline and logging options; the reported finals of each run "
    "are compared with means, RMS or last values of the airplanes' recorded loads and across the runs. Non-trivial when loads differ between steps or airplanes."
)
REQUIRED = ["final-static", "final-mean", "final-rms", "only-final-window", "options-window", "airplane-count", "circulations", "finals-equal", "window-bounds"]
NAMES = ["forces", "moments", "force_coefficients", "moment_coefficients"]


def make_cases(tier):
    reps = 7 if tier == "quick" else 50
    return [dict(variant=v, free=f, rep=r) for r in range(reps) for v in range(len(VARIANTS)) for f in (False, True)] + [dict(variant=-1, free=False, rep=r) for r in range(reps)] + shipped.unsteady_cases(tier)


def finals(p, moving):
    out = []
    for pre in (("final_mean_near_field_", "final_rms_near_field_") if moving else ("final_near_field_",)):
        out.append([[np.array(x, float) for x in getattr(p, f"{pre}{nm}_wind_axes")] for nm in NAMES])
    return out


def history(s, a, k):
    return np.concatenate(totals(s.steady_problems[k].airplanes[a]))


def check_finals(s, nair, moving, mon):
    p = s.unsteady_problem
    n = p.num_steps
    k0 = p.first_averaging_step
    if not mon.true("window-bounds", 0 <= k0 < n, f"averaging from {k0} of {n}"):
        return None
    H = np.array([[history(s, a, k) for k in range(k0, n)] for a in range(nair)])
    sc = np.abs(H.reshape(nair, -1, 4, 3)).max((0, 1, 3)).repeat(3)
    F = finals(p, moving)
    for block, clause, want in zip(F, ["final-mean", "final-rms"] if moving else ["final-static"], [H.mean(1), np.sqrt((H**2).mean(1))] if moving else [H[:, -1]]):
        if not mon.true("airplane-count", all(len(x) == nair for x in block), f"{clause}: {[len(x) for x in block]} airplanes reported instead of {nair}"):
            return None
        got = np.array([np.concatenate([block[i][a] for i in range(4)]) for a in range(nair)])
        mon.close(clause, got / (sc + 1e-300), want / (sc + 1e-300), 1e-9, 1.0)
    return H, np.concatenate([np.concatenate([np.ravel(x) for x in b]) for b in F])


def run_case(case, rng, mon):
    if "script" in case:
        for _, s, _ in shipped.run(case["script"], case["steps"]):
            check_finals(s, len(s.current_airplanes), s.unsteady_problem.max_period != 0, mon)
        return
    if case["variant"] < 0:
        # A long averaging window.
        n = int(rng.integers(45, 75))
        m = gen_unsteady(rng, nwings=1, ncw=1, nsw=1, nsec=2, steps=n, free=False)
        add_motion(rng, m, m["time"]["delta_time"] * n * R(rng, 0.6, 0.95))
    else:
        m = gen(case["variant"], rng, free=case["free"])
    mon.sample = m
    nair = len(m["airplanes"])
    s = run_unsteady(m, only_final=False)
    moving = s.unsteady_problem.max_period != 0
    mon.state(case["variant"], case["free"], moving, s.unsteady_problem.first_averaging_step)
    r = check_finals(s, nair, moving, mon)
    if r is None:
        return
    H, F = r
    mon.trivial = not np.abs(F).max() > 0
    G = np.array([p.ring_vortex.strength for a in s.current_airplanes for w in a.wings for p in np.ravel(w.panels)])
    for j in range(3):
        final = [True, False, bool(rng.integers(2))][j]
        kw = dict(calculate_streamlines=bool(rng.integers(2)), logging_level=choice(rng, ["Debug", "Info", "Warning", "Error", "Critical"]))
        t = run_unsteady(m, only_final=final, **kw)
        r2 = check_finals(t, nair, moving, mon)
        if r2 is None:
            continue
        H2, F2 = r2
        sc = np.abs(H).reshape(nair, -1, 4, 3).max((0, 1, 3)).repeat(3) + 1e-300
        mon.close("only-final-window" if final else "options-window", H2 / sc, H / sc, 1e-9, 1.0, f"options {kw} only final {final}")
        mon.close("finals-equal", F2, F, 1e-9)
        G2 = np.array([p.ring_vortex.strength for a in t.current_airplanes for w in a.wings for p in np.ravel(w.panels)])
        mon.close("circulations", G2, G, 1e-9)
