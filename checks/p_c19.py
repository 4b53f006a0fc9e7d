"""C19: determinism, isolation and repeatability over histories of solving, re-solving, querying and output."""
import contextlib
import copy
import io
import json
import os
import subprocess
import sys
import random
import threading
import time

import numpy as np

from models_lib import (add_motion, build_airplane, build_op, build_steady, build_unsteady, choice, corners, gen_steady, gen_unsteady, R, steady_solver, totals, unsteady_solver)
from p_c08 import DB, dist, naca_outline, read_dat
from p_c12 import same, scalar_attrs
import pterasoftware as ps

PROP = "C19"
LEVEL_RULE = (
    "A case is a random history of 10-30 events (construct, solve, solve again with the same or a new solver, with another solver, query the field, compute streamlines, "
    "print, plot, read surfaces and scalars) on several live models; or of airfoil constructions from the database, a designation or given points, with deflections and samples; after every solution its results are compared with the first solution of that model, and after every "
    "event all live geometry, operating points and results handed out earlier with their snapshots. Further cases compare with a fresh process, or solve several models at once in threads that are switched every few microseconds."
)
REQUIRED = ["repeat-new-model", "repeat-same-solver", "repeat-same-problem", "repeat-after-other", "geometry-kept", "operating-point-kept", "reported-kept", "fresh-process", "shared-airplane", "query-repeat", "defaults-kept", "base-of-movement", "airfoil-repeat", "airfoil-kept", "threads", "threads-query"]
TOL = 1e-9


def make_cases(tier):
    n = 240 if tier == "quick" else 900
    out = [dict(kind="history", rep=r) for r in range(n)]
    out += [dict(kind="shared", rep=r) for r in range(n // 3)]
    out += [dict(kind="airfoils", rep=r) for r in range(n // 3)]
    out += [dict(kind="threads", rep=r) for r in range(n // 5)]
    return [dict(kind="fresh", solver=k, rep=r) for r in range(2 if tier == "quick" else 20) for k in ("ring", "horseshoe", "unsteady")] + out


def spec_for(rng, kind):
    if kind == "unsteady":
        m = gen_unsteady(rng, nair=int(choice(rng, [1, 1, 2])), steps=int(rng.integers(1, 5)), static=bool(rng.integers(3) == 0), nsw=int(rng.integers(1, 3)), ncw=int(rng.integers(1, 3)))
        m["only_final_results"] = bool(rng.integers(3) == 0)
        return m
    return gen_steady(rng, nair=int(choice(rng, [1, 1, 2])), ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)))


def construct(spec, kind):
    return build_unsteady(spec) if kind == "unsteady" else build_steady(spec)


def new_solver(problem, kind):
    return unsteady_solver(problem) if kind == "unsteady" else steady_solver(problem, kind)


def run(s, kind, spec):
    if kind == "unsteady":
        s.run(prescribed_wake=spec["prescribed_wake"], calculate_streamlines=True, logging_level="Critical")
    else:
        s.run(logging_level="Critical")
    return s


def solve(problem, kind, spec):
    return run(new_solver(problem, kind), kind, spec)


def planes_of(s, kind):
    if kind == "unsteady":
        return [a for sp in s.steady_problems for a in sp.airplanes]
    return list(s.airplanes)


def results(s, kind):
    """Everything reported by a run, as a list of arrays."""
    out = []
    planes = planes_of(s, kind)
    if kind == "unsteady":
        planes = planes[s.unsteady_problem.first_results_step * len(s.steady_problems[0].airplanes):]
    for a in planes:
        out += totals(a)
        for w in a.wings:
            for p in np.ravel(w.panels):
                out.append(np.concatenate([np.array(p.near_field_force_geometry_axes, float), np.array(p.near_field_moment_geometry_axes, float)]))
    last = s.steady_problems[-1].airplanes if kind == "unsteady" else s.airplanes
    G = []
    for a in last:
        for w in a.wings:
            for p in np.ravel(w.panels):
                G.append((p.horseshoe_vortex if kind == "horseshoe" else p.ring_vortex).strength)
    out.append(np.array(G, float))
    out.append(np.array(s.streamline_points, float))
    if kind == "unsteady":
        p = s.unsteady_problem
        pre = ("final_near_field_",) if p.max_period == 0 else ("final_mean_near_field_", "final_rms_near_field_")
        for q in pre:
            for nm in ("forces", "moments", "force_coefficients", "moment_coefficients"):
                out.append(np.array(getattr(p, f"{q}{nm}_wind_axes"), float))
        for nm in ("strengths", "ages", "front_left_vertices", "back_right_vertices"):
            out += [np.array(x, float) for x in getattr(s, f"wake_ring_vortex_{nm}_list")]
    return out


def compare(mon, clause, got, want, msg):
    mon.counts[clause] += 1
    if len(got) != len(want):
        mon.fail(clause, f"{len(got)} result arrays instead of {len(want)} {msg}")
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if not g.shape == w.shape:
            mon.fail(clause, f"array {i}: shape {g.shape} instead of {w.shape} {msg}")
            return
        if g.size:
            sc = np.abs(w).max() + 1e-300
            e = np.abs(g - w).max() / sc
            # Forces that cancel to rounding have no meaningful relative size.
            if not e <= TOL and np.abs(g - w).max() > 1e-9 * ref_scale(want):
                mon.fail(clause, f"array {i} differs by {e:.3g} relative {msg}")
                return


def ref_scale(want):
    return max([np.abs(w).max() for w in want if w.size] + [1e-300])


class Live:
    """A live problem with snapshots of what must not change."""

    def __init__(self, spec, kind, problem):
        self.spec, self.kind, self.problem = spec, kind, problem
        sps = problem.steady_problems if kind == "unsteady" else [problem]
        self.planes = [a for sp in sps for a in sp.airplanes]
        self.ops = [sp.operating_point for sp in sps]
        self.geo = [geometry(a) for a in self.planes]
        self.opsnap = [scalar_attrs(o) for o in self.ops]
        self.solver = None

    def check(self, mon, event):
        for a, g in zip(self.planes, self.geo):
            for x, y in zip(g, geometry(a)):
                d = same(x, y)
                mon.true("geometry-kept", d is None, f"{event} changed {d}")
        for o, g in zip(self.ops, self.opsnap):
            d = same(g, scalar_attrs(o))
            mon.true("operating-point-kept", d is None, f"{event} changed {d}")


def geometry(a):
    keep = lambda x: {k: v for k, v in scalar_attrs(x).items() if v is not None and not k.startswith("total_") and "wake" not in k}
    out = [keep(a)]
    for w in a.wings:
        out.append(keep(w))
        out.append(dict(mesh=corners(w), colloc=np.array([p.collocation_point for p in np.ravel(w.panels)]), normal=np.array([p.unit_normal for p in np.ravel(w.panels)])))
        for s in w.wing_cross_sections:
            out.append(keep(s))
            out.append(dict(name=s.airfoil.name, c=np.array(s.airfoil.coordinates), m=np.array(s.airfoil.mcl_coordinates)))
    return out


def handed_out(s, kind):
    """References to arrays the user may have kept, and copies of them."""
    refs = []
    for a in planes_of(s, kind):
        for nm in ("total_near_field_force_wind_axes", "total_near_field_moment_wind_axes", "total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes"):
            v = getattr(a, nm)
            if isinstance(v, np.ndarray):
                refs.append((nm, v, v.copy()))
    if kind == "unsteady":
        p = s.unsteady_problem
        for nm in list(vars(p)):
            if nm.startswith("final_"):
                for x in getattr(p, nm):
                    if isinstance(x, np.ndarray):
                        refs.append((nm, x, x.copy()))
    if isinstance(s.streamline_points, np.ndarray):
        refs.append(("streamline_points", s.streamline_points, s.streamline_points.copy()))
    return refs


def output(rng, s, kind):
    f = int(rng.integers(5))
    with contextlib.redirect_stdout(io.StringIO()):
        if f == 0:
            (ps.output.print_unsteady_results if kind == "unsteady" else ps.output.print_steady_results)(s)
            return "print"
        planes = s.current_airplanes if kind == "unsteady" else s.airplanes
        if f == 1:
            ps.output.get_panel_surfaces(planes)
            return "surfaces"
        if f == 2:
            ps.output.get_scalars(planes, choice(rng, ["induced drag", "side force", "lift"]))
            return "scalars"
        if f == 3 and kind == "unsteady":
            ps.output.get_wake_ring_vortex_surfaces(s, int(rng.integers(s.num_steps)))
            return "wake surfaces"
        if f == 4 and kind == "unsteady" and s.unsteady_problem.first_results_step == 0:
            import matplotlib.pyplot as plt

            ps.output.plot_results_versus_time(s, show=False)
            plt.close("all")
            return "plot"
    return "none"


def run_case(case, rng, mon):
    if case["kind"] == "fresh":
        return fresh(case, rng, mon)
    if case["kind"] == "shared":
        return shared(rng, mon)
    if case["kind"] == "airfoils":
        return airfoils(rng, mon)
    if case["kind"] == "threads":
        return threads(rng, mon)
    specs = [(spec_for(rng, k), k) for k in (choice(rng, ["ring", "horseshoe", "unsteady"]) for _ in range(int(rng.integers(1, 4))))]
    mon.sample = [s for s, _ in specs][:1]
    first, fields = {}, {}
    lives, refs, log = [], [], []
    pts = rng.normal(size=(4, 3)) * 2

    def solved(L, clause):
        nonlocal refs
        i, kind = L.index, L.last
        r = results(L.solver, kind)
        if (i, kind) in first:
            compare(mon, clause, r, first[i, kind], f"after {log}")
        else:
            first[i, kind] = [x.copy() for x in r]
        refs += handed_out(L.solver, kind)
        refs[:] = refs[-400:]

    for _ in range(int(rng.integers(10, 30))):
        ev = int(rng.integers(9))
        if not lives or ev == 0:
            i = int(rng.integers(len(specs)))
            spec, kind = specs[i]
            L = Live(spec, kind, construct(spec, kind))
            L.index = i
            lives.append(L)
            L.solver, L.last = solve(L.problem, kind, spec), kind
            log.append(f"new {i} {kind}")
            solved(L, "repeat-new-model")
        else:
            L = choice(rng, lives)
            if ev in (1, 2):
                log.append(f"rerun {L.index}")
                if L.solver.__class__ is not None and L.last == L.kind:
                    run(L.solver, L.last, L.spec)
                    solved(L, "repeat-same-solver")
            elif ev == 3:
                log.append(f"again {L.index}")
                L.solver, L.last = solve(L.problem, L.kind, L.spec), L.kind
                solved(L, "repeat-same-problem")
            elif ev == 4 and L.kind != "unsteady":
                other = "ring" if L.kind == "horseshoe" else "horseshoe"
                log.append(f"{other} on {L.index}")
                L.solver, L.last = solve(L.problem, other, L.spec), other
                solved(L, "repeat-after-other")
                L.solver, L.last = solve(L.problem, L.kind, L.spec), L.kind
                solved(L, "repeat-after-other")
            elif ev == 4:
                # Solve one of the unsteady problem's steps on its own, then the unsteady problem again.
                k = int(rng.integers(len(L.problem.steady_problems)))
                other = choice(rng, ["ring", "horseshoe"])
                log.append(f"{other} on step {k} of {L.index}")
                t = steady_solver(L.problem.steady_problems[k], other)
                t.run(logging_level="Critical")
                L.solver = solve(L.problem, L.kind, L.spec)
                solved(L, "repeat-after-other")
            elif ev == 5:
                log.append(f"query {L.index}")
                v = np.array(L.solver.calculate_solution_velocity(pts), float)
                key = (L.index, L.last)
                if key in fields:
                    mon.close("query-repeat", v, fields[key], TOL, msg=f"after {log}")
                fields.setdefault(key, v.copy())
            elif ev == 6:
                log.append(f"streamlines {L.index}")
                a = np.array(L.solver.streamline_points, float)
                ps.functions.calculate_streamlines(L.solver, num_steps=int(rng.integers(1, 6)), delta_time=R(rng, 0.01, 0.1))
                ps.functions.calculate_streamlines(L.solver)
                mon.close("query-repeat", np.array(L.solver.streamline_points, float), a, TOL, msg=f"streamlines after {log}")
            else:
                log.append(f"{output(rng, L.solver, L.last)} {L.index}")
        for X in lives:
            X.check(mon, log[-1])
        for nm, r, c in refs:
            if not np.array_equal(r, c):
                mon.true("reported-kept", False, f"{nm} handed out earlier changed by {log[-1]}")
                break
        mon.counts["reported-kept"] += 1
    mon.state(*[x.split()[0] for x in log])
    defaults(mon)


def defaults(mon):
    a = ps.geometry.Airfoil(name="naca0012")
    s = [ps.geometry.WingCrossSection(airfoil=a), ps.geometry.WingCrossSection(airfoil=a, y_le=1.0)]
    w = ps.geometry.Wing(wing_cross_sections=s)
    for x, e in ((s[0].unit_normal_vector, [0, 1, 0]), (w.unit_normal_vector, [0, 1, 0]), (w.unit_chordwise_vector, [1, 0, 0])):
        mon.true("defaults-kept", np.array_equal(np.array(x, float), e), f"default orientation became {x}")


def shared(rng, mon):
    """The same airplane objects used in several problems, and as the base of a movement."""
    spec = spec_for(rng, "ring")
    mon.sample = spec
    planes = [build_airplane(a) for a in spec["airplanes"]]
    geo = [geometry(a) for a in planes]
    op1 = dict(spec["op"])
    op2 = dict(op1, alpha=op1["alpha"] + 3.0, velocity=op1["velocity"] * 1.3)
    want = {}
    for j, op in enumerate((op1, op2)):
        for kind in ("ring", "horseshoe"):
            want[j, kind] = results(solve(construct(dict(spec, op=op), kind), kind, spec), kind)
    P = [ps.problems.SteadyProblem(airplanes=planes, operating_point=build_op(op)) for op in (op1, op2)]
    mon.state(len(planes))
    for _ in range(6):
        j, kind = int(rng.integers(2)), choice(rng, ["ring", "horseshoe"])
        s = solve(P[j], kind, spec)
        compare(mon, "shared-airplane", results(s, kind), want[j, kind], f"problem {j} {kind}")
    # A solved airplane as the base of a movement.
    m = copy.deepcopy(spec)
    add_motion(rng, m, 0.3)
    m["time"] = dict(num_steps=3, delta_time=0.1)
    m["prescribed_wake"] = True
    from models_lib import build_airplane_movement

    mv = ps.movement.Movement(
        airplane_movements=[build_airplane_movement(x, a) for x, a in zip(planes, m["airplanes"])],
        operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=P[0].operating_point, **(m["op"].get("motion") or {})),
        **m["time"])
    u = ps.problems.UnsteadyProblem(movement=mv)
    r = results(solve(u, "unsteady", m), "unsteady")
    compare(mon, "base-of-movement", r, results(solve(construct(m, "unsteady"), "unsteady", m), "unsteady"), "movement of solved airplanes")
    s = solve(P[1], "ring", spec)
    compare(mon, "shared-airplane", results(s, "ring"), want[1, "ring"], "after an unsteady run based on them")
    for a, g in zip(planes, geo):
        for x, y in zip(g, geometry(a)):
            d = same(x, y)
            mon.true("geometry-kept", d is None, f"solving changed {d}")


PACKAGE = os.path.dirname(ps.__file__)


def at_once(jobs, interval, seed=None, p=0.02):
    """Runs the jobs in threads that start together and are switched often; returns their results or exceptions.

    With a seed the threads also give way to each other after random lines of the package."""
    out, gate, old = [None] * len(jobs), threading.Barrier(len(jobs)), sys.getswitchinterval()

    def go(i):
        gate.wait()
        if seed is not None:
            r = random.Random(seed + i)

            def line(frame, event, arg):
                if r.random() < p:
                    time.sleep(1e-6)
                return line

            sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(PACKAGE) else None)
        try:
            out[i] = jobs[i]()
        except Exception as e:
            out[i] = e
        finally:
            if seed is not None:
                sys.settrace(None)

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    sys.setswitchinterval(interval)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out


def threads(rng, mon):
    """Models built and solved at the same time in different threads."""
    kinds = [choice(rng, ["ring", "horseshoe", "unsteady"]) for _ in range(int(rng.integers(2, 5)))]
    specs = [spec_for(rng, k) for k in kinds]
    # Models of the same size, which differ in their flow only, meet in the same places.
    for i in range(1, len(specs)):
        if rng.integers(2):
            kinds[i], specs[i] = kinds[0], copy.deepcopy(specs[0])
            specs[i]["op"]["alpha"] = specs[0]["op"]["alpha"] + 2.0 * i
            specs[i]["op"]["velocity"] = specs[0]["op"]["velocity"] * (1.0 + 0.2 * i)
    mon.sample = specs[0]
    pts = rng.normal(size=(40, 3)) * 2
    alone = [solve(construct(s, k), k, s) for s, k in zip(specs, kinds)]
    want = [[x.copy() for x in results(s, k)] for s, k in zip(alone, kinds)]
    field = [np.array(s.calculate_solution_velocity(pts), float) for s in alone]
    interval = float(10 ** rng.uniform(-6, -4))
    mon.state(*kinds)
    for rep in range(4):
        got = at_once([lambda s=s, k=k: solve(construct(s, k), k, s) for s, k in zip(specs, kinds)], interval, int(rng.integers(1 << 30)) if rep else None, float(choice(rng, [0.01, 0.05, 0.2])))
        for g, w, k in zip(got, want, kinds):
            if mon.true("threads", not isinstance(g, Exception), f"{k} solved in a thread raised {g!r}"):
                compare(mon, "threads", results(g, k), w, f"{k} solved at the same time as {kinds}")
    order = [rng.permutation(len(pts)) for _ in range(4)]
    jobs = [lambda s=s, o=o: np.array(s.calculate_solution_velocity(pts[o]), float) for s in alone for o in order]
    got = at_once(jobs, interval, int(rng.integers(1 << 30)), 0.2)
    for i, g in enumerate(got):
        if mon.true("threads-query", not isinstance(g, Exception), f"query in a thread raised {g!r}"):
            mon.close("threads-query", g, field[i // 4][order[i % 4]], TOL, np.abs(field[i // 4]).max(), msg=f"queries of {kinds} at the same time")


# Four-digit designations are computed, even if there is a file of that name.
NAMES = sorted(f[:-4] for f in os.listdir(DB) if f.endswith(".dat") and not (f.startswith("naca") and len(f) == 12 and f[4:8].isdigit()))


def airfoils(rng, mon):
    """What an airfoil is depends on its own arguments, not on the airfoils made before it."""
    names = []
    while len(names) < 3:
        n = choice(rng, NAMES)
        d = read_dat(n)
        if len(d) > 20 and abs(d[0, 0] - 1) < 1e-3 and abs(d[-1, 0] - 1) < 1e-3 and 0 <= d[:, 0].min() < 1e-3 and n not in names:
            names.append(n)
    digits = [f"naca{rng.integers(1, 7)}{rng.integers(2, 7)}{rng.integers(6, 20):02d}" for _ in range(2)]
    mon.sample = names + digits
    data = {n: read_dat(n) for n in names}
    first, live, log = {}, [], []

    def key(name, src, repanel, n):
        return (name if src is None else "given", None if src is None else src, repanel, n if repanel else 0)

    for _ in range(int(rng.integers(12, 30))):
        ev = int(rng.integers(6))
        if ev < 4 or not live:
            name = choice(rng, names + digits)
            src = choice(rng, names) if rng.integers(3) == 0 else None
            repanel, n = bool(rng.integers(3)), int(choice(rng, [400, 400, 60, 100]))
            label = name.upper() if rng.integers(6) == 0 else name
            kw = {} if src is None else dict(coordinates=data[src].copy())
            if repanel is True and n == 400 and rng.integers(2):
                a = ps.geometry.Airfoil(name=label, **kw)
            else:
                a = ps.geometry.Airfoil(name=label, repanel=repanel, n_points_per_side=n, **kw)
            log.append(f"{label} from {src or 'its name'} {repanel} {n}")
            k = key(name, src, repanel, n)
            c = np.array(a.coordinates, float)
            if src is None and name in data:
                # The database's outline, whatever was made under that name before.
                b = ps.geometry.Airfoil(name="given points", coordinates=data[name].copy(), repanel=repanel, n_points_per_side=n)
                mon.close("airfoil-repeat", c, np.array(b.coordinates, float), 1e-9, 1.0, msg=f"{log[-3:]}")
            if src is None and name in digits:
                up, lo, *_ = naca_outline(name[4:])
                o = np.vstack([up[::-1], lo])
                mon.true("airfoil-repeat", dist(c[::5], o[::4]).max() < 5e-3, f"not the designation's outline after {log[-3:]}")
            if k in first:
                mon.close("airfoil-repeat", c, first[k], 1e-12, 1.0, msg=f"{log[-3:]}")
            first.setdefault(k, c.copy())
            live.append((a, c.copy(), np.array(a.mcl_coordinates, float)))
        else:
            a, c, m = choice(rng, live)
            if ev == 4 and len(a.upper_coordinates()) == len(a.lower_coordinates()):
                a.get_downsampled_mcl(np.linspace(0, 1, int(rng.integers(2, 9))))
                log.append(f"sample {a.name}")
            elif ev == 5 and a.repanel:
                d, h = R(rng, -20, 20), R(rng, 0.3, 0.9)
                one = a.add_control_surface(deflection=d, hinge_point=h)
                a.add_control_surface(deflection=R(rng, -20, 20), hinge_point=R(rng, 0.3, 0.9))
                two = a.add_control_surface(deflection=d, hinge_point=h)
                mon.close("airfoil-repeat", np.array(two.coordinates, float), np.array(one.coordinates, float), 1e-12, 1.0, msg="deflected twice alike")
                log.append(f"deflect {a.name}")
        for a, c, m in live:
            mon.true("airfoil-kept", np.array_equal(a.coordinates, c) and np.array_equal(a.mcl_coordinates, m), lambda: f"{a.name} changed by {log[-1]}")
    mon.state(*sorted(set(x.split()[0] for x in log)))


def fresh(case, rng, mon):
    kind = case["solver"]
    spec = spec_for(rng, kind)
    mon.sample = spec
    for _ in range(2):
        k2 = choice(rng, ["ring", "horseshoe", "unsteady"])
        solve(construct(spec_for(rng, k2), k2), k2, dict(prescribed_wake=False))
    got = results(solve(construct(spec, kind), kind, spec), kind)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.py")], input=json.dumps(dict(spec=spec, kind=kind)), capture_output=True, text=True, timeout=200)
    line = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    if not mon.true("fresh-process", bool(line), f"fresh process failed: {p.stderr[-400:]}"):
        return
    want = [np.array(x, float) for x in json.loads(line[0][7:])]
    want = [w.reshape(g.shape) if w.size == g.size else w for w, g in zip(want, got)]
    compare(mon, "fresh-process", got, want, "against a fresh process")
    mon.state(kind)
