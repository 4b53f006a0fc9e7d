"""C10: vortex elements and panels under update histories."""
import numpy as np

import ref
from models_lib import build_steady, choice, gen_steady, gen_unsteady, run_steady, run_unsteady, R, steady_solver
import pterasoftware as ps

PROP = "C10"
LEVEL_RULE = (
    "A case is a random history of strength and position updates over a population of ring and horseshoe vortices and "
    "panels that share corner arrays, checked after every event; or a steady or unsteady run whose recorded bound, "
    "trailing and wake elements are all checked at the end. Non-trivial when an event was applied."
)
REQUIRED = ["ring-legs", "ring-center", "ring-strength", "horseshoe-legs", "horseshoe-trailing", "horseshoe-strength", "isolation", "panel-points", "after-solve", "line"]
RINGV = ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")
LEGS = (("front_leg", 1, 0), ("left_leg", 0, 2), ("back_leg", 2, 3), ("right_leg", 3, 1))


def make_cases(tier):
    reps = 150 if tier == "quick" else 3000
    out = [dict(kind="history", rep=r) for r in range(reps)]
    out += [dict(kind=k, rep=r) for r in range(reps // 3) for k in ("horseshoe", "ring", "unsteady")]
    return out


def line(leg, a, b, g, mon, clause, L):
    mon.close(clause, leg.origin, a, 1e-14, L, "origin")
    mon.close(clause, leg.termination, b, 1e-14, L, "termination")
    mon.close(clause, leg.vector, np.asarray(b) - np.asarray(a), 1e-12, L, "vector")
    mon.close(clause, leg.center, (np.asarray(a) + np.asarray(b)) / 2, 1e-12, L, "centre")
    mon.true(clause.split("-")[0] + "-strength" if "-" in clause else clause, leg.strength == g, lambda: f"leg strength {leg.strength!r} instead of {g!r}")


def ring(r, v, g, mon, pre=""):
    L = max(np.abs(v).max(), 1e-9)
    for nm, e in zip(RINGV, v):
        mon.close("ring-legs", getattr(r, nm), e, 1e-14, L, nm)
    for nm, i, j in LEGS:
        line(getattr(r, nm), v[i], v[j], g, mon, "ring-legs", L)
    mon.close("ring-center", r.center, np.mean(v, axis=0), 1e-12, L)
    mon.true("ring-strength", r.strength == g, lambda: f"strength {r.strength!r} instead of {g!r}")


def shoe(h, a, b, d, n, g, mon):
    L = max(np.abs(a).max(), np.abs(b).max(), n * np.abs(d).max())
    line(h.finite_leg, a, b, g, mon, "horseshoe-legs", L)
    line(h.left_leg, b, b + d * n, g, mon, "horseshoe-legs", L)
    line(h.right_leg, a + d * n, a, g, mon, "horseshoe-legs", L)
    mon.close("horseshoe-trailing", h.left_leg.vector, d * n, 1e-9, L)
    mon.close("horseshoe-trailing", h.right_leg.vector, -d * n, 1e-9, L)
    mon.true("horseshoe-strength", h.strength == g, lambda: f"strength {h.strength!r} instead of {g!r}")


def own(r):
    return np.array([getattr(r, nm) for nm in RINGV], float)


def run_case(case, rng, mon):
    if case["kind"] == "history":
        return history(rng, mon)
    if case["kind"] == "unsteady":
        m = gen_unsteady(rng, nair=int(choice(rng, [1, 2])), steps=int(choice(rng, [rng.integers(1, 7), rng.integers(1, 7), rng.integers(20, 60)])))
        s = run_unsteady(m)
        planes = s.steady_problems[int(rng.integers(len(s.steady_problems)))].airplanes
        last = s.steady_problems[-1].airplanes
        op = None
        for a in last:
            for w in a.wings:
                for r in np.ravel(w.wake_ring_vortices):
                    if r is not None:
                        ring(r, own(r), r.strength, mon)
    else:
        m = gen_steady(rng)
        s = run_steady(m, case["kind"])
        planes = s.airplanes
        d = -ref.wind_axes(m["op"]["alpha"], m["op"]["beta"])[0]
    mon.sample = m
    for a in planes:
        for w in a.wings:
            for p in np.ravel(w.panels):
                mon.counts["after-solve"] += 1
                c = np.array([getattr(p, nm) for nm in RINGV], float)
                panel(p, c, mon)
                if p.ring_vortex is not None:
                    ring(p.ring_vortex, own(p.ring_vortex), p.ring_vortex.strength, mon)
                h = p.horseshoe_vortex
                if h is not None:
                    n = float(np.linalg.norm(h.left_leg.vector))
                    shoe(h, np.array(h.finite_leg_origin), np.array(h.finite_leg_termination), d, n, h.strength, mon)


def panel(p, c, mon):
    q = ref.panel_quantities(c)
    L = np.abs(c).max() + 1e-9
    mon.close("panel-points", p.front_left_vortex_vertex, q["vfl"], 1e-13, L)
    mon.close("panel-points", p.front_right_vortex_vertex, q["vfr"], 1e-13, L)
    mon.close("panel-points", p.collocation_point, q["colloc"], 1e-13, L)
    for nm, i, j in (("front_leg", 1, 0), ("left_leg", 0, 2), ("back_leg", 2, 3), ("right_leg", 3, 1)):
        mon.close("panel-points", getattr(p, nm), c[j] - c[i], 1e-13, L, nm)


def history(rng, mon):
    size = float(choice(rng, [1e-3, 1.0, 300.0]))
    # A pool of shared corner arrays, as in a mesh.
    pool = [rng.normal(size=3) * size for _ in range(8)]
    pick4 = lambda: [pool[i] if rng.integers(2) else rng.normal(size=3) * size for i in rng.permutation(8)[:4]]
    A = ps.aerodynamics
    rings, shoes, panels = [], [], []
    for _ in range(int(rng.integers(2, 6))):
        v = pick4()
        g = float(choice(rng, [0.0, 1.0, float(rng.normal() * 10)]))
        rings.append([A.RingVortex(**dict(zip(RINGV, v)), strength=g), [x.copy() for x in v], g])
    for _ in range(int(rng.integers(1, 4))):
        a, b = pick4()[:2]
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        n, g = float(rng.uniform(0.5, 100) * size), float(rng.normal())
        shoes.append([A.HorseshoeVortex(finite_leg_origin=a, finite_leg_termination=b, strength=g, infinite_leg_direction=d, infinite_leg_length=n),
                      a.copy(), b.copy(), d.copy(), n, g])
    for _ in range(2):
        v = pick4()
        panels.append([ps.panel.Panel(**dict(zip(RINGV, v)), is_leading_edge=True, is_trailing_edge=False), [x.copy() for x in v]])
    a, b, g = rng.normal(size=3), rng.normal(size=3), float(rng.normal())
    line(A.LineVortex(origin=a, termination=b, strength=g), a, b, g, mon, "line", 1.0)
    trace = []

    def check():
        for r, v, g in rings:
            ring(r, np.array(v), g, mon)
        for h, a, b, d, n, g in shoes:
            shoe(h, a, b, d, n, g, mon)
        for p, v in panels:
            panel(p, np.array(v), mon)
        mon.counts["isolation"] += 1

    check()
    for _ in range(int(rng.integers(3, 12))):
        e = int(rng.integers(7))
        if e == 0:
            x = rings[int(rng.integers(len(rings)))]
            x[2] = float(choice(rng, [0.0, -1.5, float(rng.normal() * 100), np.float64(rng.normal())]))
            x[0].update_strength(x[2])
        elif e == 1:
            x = rings[int(rng.integers(len(rings)))]
            v = pick4()
            x[0].update_position(**dict(zip(RINGV, v)))
            x[1] = [y.copy() for y in v]
        elif e == 2:
            x = shoes[int(rng.integers(len(shoes)))]
            x[5] = float(rng.normal() * 10)
            x[0].update_strength(x[5])
        elif e == 3:
            # A ring moves onto another ring's present corners, taken from that ring.
            x, y = rings[int(rng.integers(len(rings)))], rings[int(rng.integers(len(rings)))]
            v = [getattr(y[0], nm) for nm in RINGV]
            x[0].update_position(**dict(zip(RINGV, v)))
            x[1] = [q.copy() for q in y[1]]
        elif e == 4:
            # A ring moves only some of its corners, or a little.
            x = rings[int(rng.integers(len(rings)))]
            move = rng.integers(2, size=4) * float(choice(rng, [1.0, 1e-3, 1e-6, 1e-9]))
            v = [y + d * size * rng.normal(size=3) for y, d in zip(x[1], move)]
            x[0].update_position(**dict(zip(RINGV, v)))
            x[1] = [y.copy() for y in v]
        elif e == 5:
            # Strengths change a little.
            x = rings[int(rng.integers(len(rings)))]
            x[2] = float(x[2]) + float(choice(rng, [1e-3, -1e-6, 1e-9]))
            x[0].update_strength(x[2])
        else:
            # A panel gets new corners.
            x = panels[int(rng.integers(len(panels)))]
            i = int(rng.integers(4))
            new = rng.normal(size=3) * size
            setattr(x[0], RINGV[i], new)
            x[1][i] = new.copy()
        trace.append(e)
        check()
    mon.sample = dict(events=trace, rings=len(rings), horseshoes=len(shoes))
    mon.state(tuple(trace), len(rings), len(shoes))
