"""C22: printed text, matplotlib figures, plotter calls and written files captured from the real output functions vs the solvers' recorded results."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
import pyvista as pv
import webp

from models_lib import HS, RING, R, build_airfoil, choice, gen_steady, gen_unsteady, run_steady, run_unsteady
import pterasoftware as ps

PROP = "C22"
LEVEL_RULE = (
    "A case is one solved model (steady of either kind, unsteady static or moving, all results or final only, one or several steps) and one output call with its options; "
    "what was printed, plotted, drawn or written is compared item by item with the recorded results. Non-trivial when the model carries load."
)
REQUIRED = ["printed", "printed-headings", "plotted-values", "plotted-times", "plot-files", "panels-drawn", "scalars-drawn", "wake-drawn", "streamlines-drawn", "frames", "draw-file", "animate-file",
            "extremes", "surface-functions", "wake-functions", "scalar-functions", "animation-speed", "airfoil-drawn"]
ASSUMPTIONS = ["drawing calls are recorded on a real pyvista plotter whose window is never opened (screenshots are replaced by coded images); rasterisation itself is pyvista's"]
TYPES = ["induced drag", "side force", "lift"]
ATTR = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}


def make_cases(tier):
    reps = 5 if tier == "quick" else 40
    out = []
    for r in range(reps):
        for nair in (1, 2, 3):
            for k in (HS, RING):
                out += [dict(call="print", model="steady", solver=k, nair=nair, rep=r), dict(call="draw", model="steady", solver=k, nair=nair, type=nair - 1, rep=r), dict(call="draw", model="steady", solver=k, nair=nair, type=None, stream=nair == 2, rep=r)]
            for mv in (False, True):
                for fin in (False, True):
                    d = dict(model="unsteady", moving=mv, final=fin, nair=nair, rep=r)
                    out += [dict(d, call="print"), dict(d, call="plot"), dict(d, call="draw", type=(nair + fin) % 3, wake=True), dict(d, call="animate", type=nair - 1, wake=bool((nair + fin) % 2)), dict(d, call="animate", type=None, wake=True), dict(d, call="functions")]
        for st in (1, 2):
            d = dict(model="unsteady", moving=bool(st % 2), final=False, nair=1, steps=st, rep=r)
            out += [dict(d, call="print"), dict(d, call="plot"), dict(d, call="draw", type=2, wake=True), dict(d, call="draw", type=None, wake=True), dict(d, call="animate", type=0, wake=True), dict(d, call="functions")]
        for st, nair in ((60, 1), (25, 2), (2, 7)):
            d = dict(model="unsteady", moving=bool((r + nair) % 2), final=False, nair=nair, steps=st, many=True, rep=r)
            out += [dict(d, call="print"), dict(d, call="plot"), dict(d, call="draw", type=2, wake=True), dict(d, call="animate", type=r % 3, wake=True), dict(d, call="functions")]
        # Long and wide wakes.
        d = dict(model="unsteady", moving=bool(r % 2), final=False, nair=1, steps=40, many=True, wide=True, rep=r)
        out += [dict(d, call="functions"), dict(d, call="draw", type=None, wake=True)]
        for k in (HS, RING):
            out += [dict(call="draw", model="steady", solver=k, nair=1, type=2, flat=True, rep=r), dict(call="print", model="steady", solver=k, nair=1, flat=True, rep=r)]
        for dt in (0.004, 0.03, 0.4, 1.7):
            out.append(dict(model="unsteady", moving=False, final=False, nair=1, call="animate", type=2, wake=False, dt=dt, save=True, rep=r))
        out += [dict(model="unsteady", moving=True, final=False, nair=2, call="files", rep=r), dict(model="steady", solver=HS, nair=1, call="files", rep=r)]
        out += [dict(model="unsteady", moving=mv, final=False, nair=1, call="draw", type=None, wake=True, stream=True, rep=r) for mv in (False, True)]
    return out + [dict(call="airfoil", rep=r) for r in range(reps)]


class Recorder(pv.Plotter):
    """A real plotter that notes what it is given, frame by frame, and opens no window."""

    made = []

    def __init__(self, *a, **k):
        k["off_screen"] = True
        super().__init__(*a, **k)
        self.frames = [[]]
        self.texts = [[]]
        self.shots = 0
        Recorder.made.append(self)

    def add_mesh(self, mesh, *a, **k):
        r = super().add_mesh(mesh, *a, **k)
        sc = k.get("scalars")
        if isinstance(sc, str):
            sc = mesh.cell_data[sc] if sc in mesh.cell_data else mesh.point_data[sc]
        self.frames[-1].append(dict(points=np.array(mesh.points, float), faces=np.array(mesh.faces).copy(), lines=np.array(mesh.lines).copy(), scalars=None if sc is None else np.array(sc, float)))
        return r

    def add_text(self, text, *a, **k):
        self.texts[-1].append(str(text))
        return super().add_text(text, *a, **k)

    def clear(self, *a, **k):
        if getattr(self, "frames", None):
            self.frames.append([])
            self.texts.append([])
        return super().clear(*a, **k)

    def show(self, *a, **k):
        return None

    def screenshot(self, *a, **k):
        img = np.zeros((32, 32, 4), np.uint8)
        img[..., 3] = 255
        # The frame's number in the picture.
        img[..., 0] = 10 * (len(self.frames) % 25)
        self.shots += 1
        return img


@contextlib.contextmanager
def sandbox():
    """A scratch working directory, the recording plotter and no waiting."""
    here = os.getcwd()
    d = tempfile.mkdtemp(dir=os.environ.get("PTERA_WORK"))
    old, Recorder.made = pv.Plotter, []
    import time

    slp = time.sleep
    time.sleep = lambda *_: None
    pv.Plotter = Recorder
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        pv.Plotter = old
        time.sleep = slp
        os.chdir(here)
        plt.close("all")
        pv.close_all()
        shutil.rmtree(d, ignore_errors=True)


def model(case, rng):
    if case["model"] == "steady":
        m = gen_steady(rng, nair=case["nair"], orients=choice(rng, [("std",), ("std", "fin"), ("general",)]), ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)), alpha=R(rng, 3, 9), beta=R(rng, -9, 9), velocity=R(rng, 10, 30), size=1.0,
                       **(dict(nwings=1, symmetric=False, nsec=2) if case.get("flat") else {}))
        if case.get("flat"):
            m["airplanes"][0]["wings"][0]["num_chordwise_panels"] = 1
            for s in m["airplanes"][0]["wings"][0]["sections"]:
                s["num_spanwise_panels"] = 1
    else:
        m = gen_unsteady(rng, nair=case["nair"], orients=choice(rng, [("std",), ("std", "fin"), ("general",)]), static=not case["moving"], steps=case.get("steps") or int(rng.integers(3, 7)), beta=R(rng, -9, 9), alpha=R(rng, 3, 9), velocity=R(rng, 10, 30),
                         **(dict(dt=case["dt"]) if case.get("dt") else {}), **(dict(nwings=1, nsec=2, ncw=1, nsw=9 if case.get("wide") else 1, free=False, **(dict(symmetric=True) if case.get("wide") else {})) if case.get("many") else {}))
        if case.get("dt"):
            # Keep the wake's spacing sensible.
            m["op"]["velocity"] = 0.3 / case["dt"]
        if case["moving"] and case["final"]:
            m["time"] = dict(num_cycles=int(rng.integers(1, 3)), delta_time=m["time"]["delta_time"])
    if case["rep"] % 2 and not case.get("dt"):
        # Dense media and large loads.
        m["op"]["density"] = float(choice(rng, [0.02, 30.0, 1000.0]))
    names = [["alpha wing", "B-2", "x"], ["Plane", "Other plane", "Third"], ["one", "two", "three"], ["same", "same", "same"]][int(rng.integers(3 if case["call"] == "files" else 4))]
    for a, n in zip(m["airplanes"], names):
        a["name"] = n
    return m


def solve(case, m):
    if case["model"] == "steady":
        return run_steady(m, case["solver"])
    return run_unsteady(m, only_final=case["final"], calculate_streamlines=bool(case.get("stream")))


def vec(a, q):
    return np.array(getattr(a, q), float)


QS = ["total_near_field_force_wind_axes", "total_near_field_moment_wind_axes", "total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes"]
LABELS = [["Induced Drag", "Side Force", "Lift"], ["Rolling Moment", "Pitching Moment", "Yawing Moment"], ["CDi", "CY", "CL"], ["Cl", "Cm", "Cn"]]
FINALS = ["forces", "moments", "force_coefficients", "moment_coefficients"]


def expected_print(case, s):
    """[(name, {label: value})]"""
    out = []
    if case["model"] == "steady":
        for a in s.airplanes:
            out.append((a.name, {l: v for ls, q in zip(LABELS, QS) for l, v in zip(ls, vec(a, q))}))
        return out
    p = s.unsteady_problem
    pre = "final_mean_near_field_" if case["moving"] else "final_near_field_"
    for i, a in enumerate(s.steady_problems[0].airplanes):
        out.append((a.name, {l: v for ls, f in zip(LABELS, FINALS) for l, v in zip(ls, np.array(getattr(p, pre + f + "_wind_axes")[i], float))}))
    return out


def check_print(case, s, mon):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        (ps.output.print_steady_results if case["model"] == "steady" else ps.output.print_unsteady_results)(s)
    want = expected_print(case, s)
    got, cur = [], None
    for line in buf.getvalue().splitlines():
        t = line.strip()
        v = re.match(r"^(.*?):\s*(-?[\d.]+(?:e[+-]?\d+)?|-?nan|-?inf)\s*(?:N|Nm|N m)?$", t)
        if v and cur is not None:
            lab = v.group(1).strip()
            mon.true("printed-headings", lab not in cur[1], f"label {lab!r} printed twice for {cur[0]!r}")
            cur[1][lab] = float(v.group(2))
        elif t.endswith(":") and "Wind Axes" not in t:
            cur = (t[:-1].replace("Airplane ", "", 1) if case["model"] == "steady" else t[:-1], {})
            got.append(cur)
    if not mon.true("printed-headings", [g[0] for g in got] == [w[0] for w in want], f"headings {[g[0] for g in got]}, airplanes {[w[0] for w in want]}"):
        return
    for (n, g), (_, w) in zip(got, want):
        for lab, x in w.items():
            if mon.true("printed-headings", lab in g, f"no {lab!r} printed for {n!r}: {sorted(g)}"):
                mon.true("printed", abs(g[lab] - x) <= 5.1e-4 + 1e-9 * abs(x), f"{n}: {lab} printed as {g[lab]}, recorded {x}")


def with_results(s):
    return [i for i, p in enumerate(s.steady_problems) if p.airplanes[0].total_near_field_force_wind_axes is not None]


def check_plot(case, s, mon):
    with sandbox():
        ps.output.plot_results_versus_time(s, show=True)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        axes = {}
        for f in figs:
            for ax in f.axes:
                t = ax.get_title()
                axes.setdefault(t, []).append({ln.get_label(): (np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in ax.get_lines()})
    steps = with_results(s)
    times = np.array(steps) * s.delta_time
    kinds = ["Forces", "Moments", "Force Coefficients", "Moment Coefficients"]
    labs = [["Induced Drag", "Side Force", "Lift"], ["Roll", "Pitch", "Yaw"], ["Induced Drag", "Side Force", "Lift"], ["Roll", "Pitch", "Yaw"]]
    names = [a.name for a in s.steady_problems[0].airplanes]
    for t, x in axes.items():
        n = sum(t == f"{a} {k} vs. Time" for a in names for k in kinds)
        mon.true("plotted-values", len(x) == n, f"{len(x)} plots titled {t!r} for airplanes {names}")
    for i, a in enumerate(s.steady_problems[0].airplanes):
        for k, q, ls in zip(kinds, QS, labs):
            t = f"{a.name} {k} vs. Time"
            # Airplanes of the same name are plotted in order.
            same = names[:i].count(a.name)
            if not mon.true("plotted-values", len(axes.get(t, [])) > same, f"no plot titled {t!r}: {sorted(axes)}"):
                continue
            ax = axes[t][same]
            H = np.array([vec(s.steady_problems[j].airplanes[i], q) for j in steps])
            for c, l in enumerate(ls):
                if not mon.true("plotted-values", l in ax, f"{t}: no curve {l!r}"):
                    continue
                x, y = ax[l]
                if mon.true("plotted-times", len(x) == len(times), f"{t}: {len(x)} points for {len(times)} steps with results"):
                    mon.close("plotted-times", x, times, 1e-9, s.delta_time, f"{t}: times of {l}")
                    mon.close("plotted-values", y, H[:, c], 1e-12, 1e-12, f"{t}: {l}")


def quads(meshes):
    """Every face of a frame as (corner array, scalar or None)."""
    out = []
    for d in meshes:
        f, k, c = d["faces"], 0, 0
        while k < len(f):
            n = int(f[k])
            out.append((d["points"][f[k + 1: k + 1 + n]], None if d["scalars"] is None else d["scalars"], c))
            k += n + 1
            c += 1
    return out


def segments(meshes):
    out = []
    for d in meshes:
        f, k = d["lines"], 0
        while k < len(f):
            n = int(f[k])
            P = d["points"][f[k + 1: k + 1 + n]]
            out += [(P[i], P[i + 1]) for i in range(n - 1)]
            k += n + 1
    return out


def key(P, scale):
    """A canonical form of a polygon: which cyclic order, direction and start do not matter."""
    P = np.round(np.asarray(P, float) / scale, 5) + 0.0
    P = [tuple(x) for x in P]
    k = len(P)
    return min(tuple(P[(i + s * j) % k] for j in range(k)) for i in range(k) for s in (1, -1))


def check_frame(mon, meshes, planes, typ, wake, scale, where):
    """One picture: each panel once at its corners with its scalar, each wake ring once, nothing else."""
    want = {}
    for a in planes:
        for w in a.wings:
            for p in np.ravel(w.panels):
                k = key([p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex], scale)
                want.setdefault(k, []).append(None if typ is None else float(getattr(p, ATTR[typ])))
    wwant = {}
    for r in wake:
        wwant[key(r, scale)] = wwant.get(key(r, scale), 0) + 1
    extra = 0
    for P, sc, c in quads(meshes):
        k = key(P.astype(np.float64), scale)
        if want.get(k):
            v = want[k]
            if typ is None:
                v.pop()
            else:
                if not mon.true("scalars-drawn", sc is not None and len(sc) > c, f"{where}: panel without its scalar"):
                    v.pop()
                    continue
                j = int(np.argmin([abs(x - sc[c]) for x in v]))
                mon.close("scalars-drawn", sc[c], v[j], 1e-9, 1e-12, f"{where}: {typ} coefficient of a panel")
                v.pop(j)
        elif wwant.get(k):
            wwant[k] -= 1
        else:
            extra += 1
    left = sum(len(v) for v in want.values())
    wl = sum(wwant.values())
    if left or extra and not wake:
        mon.fail("panels-drawn", f"{where}: {left} panels missing, {extra} faces that are not panels of this step")
    else:
        mon.true("panels-drawn", True)
    if wake:
        mon.true("wake-drawn", wl == 0 and extra == 0, f"{where}: {wl} of {len(wake)} wake rings missing, {extra} faces that are neither")


def wake_rings(s, step):
    if step == 0:
        return []
    g = lambda c: np.array(getattr(s, f"wake_ring_vortex_{c}_vertices_list")[step], float)
    return list(np.stack([g("front_left"), g("front_right"), g("back_right"), g("back_left")], 1))


def extremes(mon, texts, vals, where):
    for w, f in (("Max", max), ("Min", min)):
        x = [t for t in texts if t.startswith(w + ":")]
        if mon.true("extremes", len(x) == 1, f"{where}: labels {texts}"):
            mon.true("extremes", abs(float(x[0].split(":")[1]) - f(vals)) <= 0.0051, f"{where}: {x[0]!r}, recorded {f(vals)}")


def values(planes, typ):
    return [float(getattr(p, ATTR[typ])) for a in planes for w in a.wings for p in np.ravel(w.panels)]


def extent(planes):
    return max(np.abs(p.front_left_vertex - q.back_right_vertex).max() for a in planes for w in a.wings for p in np.ravel(w.panels)[:1] for q in np.ravel(w.panels)[-1:])


def check_draw(case, s, mon):
    typ = None if case["type"] is None else TYPES[case["type"]]
    planes = s.airplanes if case["model"] == "steady" else s.steady_problems[-1].airplanes
    kw = dict(scalar_type=typ, show_wake_vortices=bool(case.get("wake")), show_streamlines=bool(case.get("stream")))
    if case.get("stream") and case.get("extra"):
        # The user's own streamlines, shorter or longer than the solvers'.
        ps.functions.calculate_streamlines(s, **case["extra"])
    with sandbox() as d:
        ps.output.draw(s, testing=bool(case["rep"] % 2), **kw)
        made = Recorder.made
        left = os.listdir(d)
    mon.true("frames", sum(1 for p in made for f in p.frames if f) == 1, "not exactly one picture drawn")
    mon.true("draw-file", not left, f"files written without being asked for: {left}")
    meshes = [x for p in made for f in p.frames for x in f]
    wake = wake_rings(s, s.num_steps - 1) if case.get("wake") and case["model"] == "unsteady" else []
    check_frame(mon, meshes, planes, typ, wake, extent(planes), "draw")
    if typ:
        extremes(mon, [t for p in made for f in p.texts for t in f], values(planes, typ), "draw")
    seg = segments(meshes)
    if case.get("stream"):
        S = np.array(s.streamline_points, float)
        sc = extent(planes)
        k = lambda a, b: tuple(sorted([tuple(np.round(a / sc, 4) + 0.0), tuple(np.round(b / sc, 4) + 0.0)]))
        w, g = {}, {}
        for i in range(S.shape[1]):
            for t in range(1, S.shape[0]):
                w[k(S[t - 1, i], S[t, i])] = w.get(k(S[t - 1, i], S[t, i]), 0) + 1
        for a, b in seg:
            a, b = np.asarray(a, float), np.asarray(b, float)
            g[k(a, b)] = g.get(k(a, b), 0) + 1
        # Single precision may round a coordinate the other way.
        bad = sum(1 for x in w if x not in g)
        mon.true("streamlines-drawn", len(seg) == S.shape[1] * (S.shape[0] - 1) and bad <= 0.02 * len(w) + 1, f"{len(seg)} segments drawn for {S.shape}; {bad} of {len(w)} not found")
    else:
        mon.true("streamlines-drawn", not seg, "lines drawn without streamlines being asked for")


def check_animate(case, s, mon):
    typ = None if case["type"] is None else TYPES[case["type"]]
    with sandbox() as d:
        ps.output.animate(s, scalar_type=typ, show_wake_vortices=bool(case.get("wake")), save=bool(case.get("save")), testing=bool(case["rep"] % 2))
        made = Recorder.made
        left = sorted(os.listdir(d))
        if case.get("save"):
            if mon.true("animate-file", left == ["Animate.webp"], f"files {left}"):
                frames_in(mon, os.path.join(d, "Animate.webp"), s)
        else:
            mon.true("animate-file", not left, f"files written without being asked for: {left}")
    frames = [f for p in made for f in p.frames if f]
    texts = [t for p in made for f, t in zip(p.frames, p.texts) if f]
    n = len(s.steady_problems)
    if not mon.true("frames", len(frames) == n, f"{len(frames)} pictures for {n} steps"):
        return
    res = with_results(s)
    sc = extent(s.steady_problems[0].airplanes)
    allv = [v for i in res for v in values(s.steady_problems[i].airplanes, typ)] if typ else []
    for i, (f, t) in enumerate(zip(frames, texts)):
        planes = s.steady_problems[i].airplanes
        ty = typ if i in res else None
        check_frame(mon, f, planes, ty, wake_rings(s, i) if case.get("wake") else [], sc, f"frame {i}")
        if ty:
            extremes(mon, t, allv, f"frame {i}")
        if case.get("save"):
            speed = min(1.0, 50 * s.delta_time)
            x = [re.search(r"(\d+)\s*%", y) for y in t if y.startswith("Speed")]
            mon.true("animation-speed", len(x) == 1 and x[0] and abs(float(x[0].group(1)) - 100 * speed) <= 0.51, f"speed label {t} at {s.delta_time} s per step")


def frames_in(mon, path, s):
    """The saved animation shows the steps in order at the stated speed."""
    with open(path, "rb") as f:
        dec = webp.WebPAnimDecoder.new(webp.WebPData.from_buffer(f.read()))
    arr = list(dec.frames())
    n = len(s.steady_problems)
    mon.true("animate-file", len(arr) == n, f"{len(arr)} frames saved for {n} steps")
    code = [float(np.mean(x[0][..., 0])) / 10 for x in arr]
    mon.true("animate-file", all(b > a for a, b in zip(code, code[1:])), f"frames out of order: {code}")
    ends = np.array([x[1] for x in arr], float) / 1000
    per = max(s.delta_time, 0.02)
    mon.true("animation-speed", np.all(np.abs(ends - per * np.arange(1, n + 1)) <= 0.005 + 0.05 * ends), f"frames end at {ends.tolist()} s, {per} s each expected")


def check_functions(case, s, mon):
    for i in range(len(s.steady_problems)):
        planes = s.steady_problems[i].airplanes
        P = [p for a in planes for w in a.wings for p in np.ravel(w.panels)]
        m = ps.output.get_panel_surfaces(planes)
        f = np.array(m.faces).reshape(-1, 5)
        mon.true("surface-functions", m.n_cells == len(P), f"{m.n_cells} faces for {len(P)} panels")
        want = np.array([[p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex] for p in P])
        mon.close("surface-functions", np.array(m.points, float)[f[:, 1:]], want, 1e-5, np.abs(want).max(), f"step {i}")
        if i in with_results(s):
            for t in TYPES:
                mon.close("scalar-functions", np.array(ps.output.get_scalars(planes, t), float), [getattr(p, ATTR[t]) for p in P], 1e-12, 1e-15, t)
        if i > 0:
            w = ps.output.get_wake_ring_vortex_surfaces(s, i)
            r = np.array(wake_rings(s, i))
            f = np.array(w.faces).reshape(-1, 5)
            if mon.true("wake-functions", len(f) == len(r), f"{len(f)} faces for {len(r)} wake rings at step {i}"):
                got = np.array(w.points, float)[f[:, 1:]]
                mon.close("wake-functions", np.sort(got.reshape(len(r), -1), 1), np.sort(r.reshape(len(r), -1), 1), 1e-5, np.abs(r).max(), f"step {i}")


def check_files(case, s, mon):
    with sandbox() as d:
        ps.output.draw(s, scalar_type="lift", save=True, testing=True)
        mon.true("draw-file", os.listdir(d) == ["Draw.webp"], f"files {os.listdir(d)}")
        if os.path.exists("Draw.webp"):
            a = webp.load_image("Draw.webp")
            mon.true("draw-file", a.size == (32, 32), f"picture of size {a.size}")
            os.remove("Draw.webp")
        if case["model"] == "unsteady":
            ps.output.plot_results_versus_time(s, show=False, save=True)
            want = sorted(f"{a.name} {k}.png" for a in s.steady_problems[0].airplanes for k in ("Forces", "Force Coefficients", "Moments", "Moment Coefficients"))
            got = sorted(os.listdir(d))
            mon.true("plot-files", got == want, f"files {got}")
            mon.true("plot-files", all(open(f, "rb").read(8) == b"\x89PNG\r\n\x1a\n" for f in got), "not PNG files")
            same = {}
            for f in got:
                same.setdefault(open(f, "rb").read(), []).append(f)
            mon.true("plot-files", all(len(v) == 1 for v in same.values()), f"identical plots: {[v for v in same.values() if len(v) > 1]}")


def check_airfoils(rng, mon):
    for _ in range(6):
        a = build_airfoil(choice(rng, ["naca2412", "e387", dict(name="naca0012", n_points_per_side=30)]))
        if rng.integers(2):
            a = a.add_control_surface(deflection=R(rng, -20, 20), hinge_point=0.7)
        c = np.array(a.coordinates, float)
        with sandbox():
            plt.close("all")
            a.draw()
            L = [x for n in plt.get_fignums() for ax in plt.figure(n).axes for x in ax.lines]
            L = [np.column_stack([x.get_xdata(), x.get_ydata()]) for x in L]
            mon.true("airfoil-drawn", any(x.shape == c.shape and np.allclose(x, c, rtol=0, atol=1e-12) for x in L), f"no curve of {len(L)} is the airfoil's outline")
        mon.true("airfoil-drawn", np.array_equal(c, np.array(a.coordinates)), "drawing changed the airfoil")


def run_case(case, rng, mon):
    if case["call"] == "airfoil":
        return check_airfoils(rng, mon)
    m = model(case, rng)
    mon.sample = m
    s = solve(case, m)
    if rng.integers(3):
        case = dict(case, extra=dict(num_steps=int(choice(rng, [0, 1, 7, 26, 40, 60])), delta_time=float(choice(rng, [0.01, 0.05]))))
    mon.state(case["call"], case["model"], case.get("moving"), case.get("final"), case["nair"], case.get("type"), case.get("steps"), case.get("wake"))
    dict(print=check_print, plot=check_plot, draw=check_draw, animate=check_animate, functions=check_functions, files=check_files)[case["call"]](case, s, mon)
