"""C08: airfoil loading, resampling and camber lines."""
import glob
import os

import numpy as np

import ref
from models_lib import choice, R

import pterasoftware as ps

PROP = "C08"
LEVEL_RULE = (
    "A case is one four-digit designation, one file of the bundled database, or one random outline supplied as "
    "coordinates; the constructed outline, camber line, thickness and samples are compared with the analytic formulas, "
    "with an independent reading of the file, or with the supplied points. Non-trivial when an airfoil was examined."
)
REQUIRED = ["four-digit-outline", "four-digit-camber", "database-loads", "database-coordinates", "repanel-keeps-curve", "point-count", "outline-order",
            "camber-midway", "thickness", "sampling", "supplied-coordinates-kept", "camber-at-fraction", "case-insensitive", "input-untouched"]
ASSUMPTIONS = ["database files are taken as published: rows after the title line holding exactly two numbers",
               "twelve database files whose data do not describe one chord-normalised outline are known findings"]
DB = os.path.join("/repo", "pterasoftware", "airfoils")
WARM = False


def make_cases(tier):
    out = []
    if tier == "quick":
        rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1")))
        ds = ["0012", "2412", "0006", "4415", "9940", "1101", "0001", "6409", "9901", "1975"]
        ds += [f"{rng.integers(1, 10)}{rng.integers(1, 10)}{rng.integers(1, 41):02d}" for _ in range(400)]
        ds += [f"00{i:02d}" for i in range(1, 41, 3)]
        reps = 60
    else:
        ds = [f"00{i:02d}" for i in range(1, 61)] + [f"{m}{p}{t:02d}" for m in range(1, 10) for p in range(1, 10) for t in range(1, 41)]
        reps = 2000
    for i in range(0, len(ds), 6):
        out.append(dict(kind="naca", names=ds[i : i + 6]))
    files = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(DB, "*.dat")))
    for i in range(0, len(files), 25):
        out.append(dict(kind="db", names=files[i : i + 25]))
    return out + [dict(kind="custom", rep=r) for r in range(reps)]


def dist(pts, poly):
    a, b = poly[:-1], poly[1:]
    e = b - a
    n = (e**2).sum(1)
    k = n > 0
    a, e, n = a[k], e[k], n[k]
    r = pts[:, None] - a[None]
    t = np.clip((r * e).sum(-1) / n, 0, 1)
    return np.sqrt(((r - t[..., None] * e) ** 2).sum(-1)).min(1)


def dist_fine(pts, poly):
    """As dist, for a finely sampled polyline: examines the segments next to the nearest vertices."""
    from scipy.spatial import cKDTree

    _, k = cKDTree(poly).query(pts)
    best = np.full(len(pts), np.inf)
    for o in (-2, -1, 0, 1):
        i = np.clip(k + o, 0, len(poly) - 2)
        a, e = poly[i], poly[i + 1] - poly[i]
        n = np.maximum((e**2).sum(1), 1e-300)
        t = np.clip(((pts - a) * e).sum(1) / n, 0, 1)
        best = np.minimum(best, np.linalg.norm(pts - a - t[:, None] * e, axis=1))
    return best


def naca_outline(d, n=4001):
    m, p, t = int(d[0]) / 100, int(d[1]) / 10 or 0.5, int(d[2:]) / 100
    x = 0.5 * (1 - np.cos(np.linspace(0, np.pi, n)))
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x**2 + 0.2843 * x**3 - 0.1015 * x**4)
    yc = np.where(x <= p, m / p**2 * (2 * p * x - x * x), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x * x))
    th = np.arctan(np.where(x <= p, 2 * m / p**2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x)))
    up = np.column_stack([x - yt * np.sin(th), yc + yt * np.cos(th)])
    lo = np.column_stack([x + yt * np.sin(th), yc - yt * np.cos(th)])
    return up, lo, x, yc, yt


def read_dat(name):
    rows = []
    with open(os.path.join(DB, name + ".dat"), encoding="latin-1") as f:
        for line in f.read().splitlines()[1:]:
            t = line.replace("(", " ").replace(")", " ").split()
            try:
                r = [float(x) for x in t]
            except ValueError:
                continue
            if len(r) == 2:
                rows.append(r)
    return np.array(rows)


def structure(a, mon, nps=None, key=None):
    """What must hold of any airfoil object: order, camber line, thickness, sampling."""
    c = np.array(a.coordinates, float)
    if not mon.true("outline-order", c.ndim == 2 and c.shape[1] == 2 and np.isfinite(c).all(), f"coordinates {c.shape}", key):
        return
    if nps is not None:
        mon.true("point-count", len(c) == 2 * nps - 1, lambda: f"{len(c)} points for {nps} per side", key)
        x = 0.5 * (1 - np.cos(np.pi * np.arange(nps) / (nps - 1)))
        if len(c) == 2 * nps - 1:
            mon.close("point-count", np.array(c[:, 0]), np.hstack([x[::-1], x[1:]]), 1e-12, msg="cosine spacing", key=key)
    i = a.leading_edge_index()
    mon.true("outline-order", c[i, 0] == c[:, 0].min(), "leading edge is the foremost point", key)
    up, lo = np.array(a.upper_coordinates()), np.array(a.lower_coordinates())
    mon.true("outline-order", np.array_equal(up, c[: i + 1]) and np.array_equal(lo, c[i:]), "upper and lower parts of the outline", key)
    upf = up[::-1]
    mcl = np.array(a.mcl_coordinates, float)
    if len(up) != len(lo):
        # Sides without common chord fractions (only without repanelling).
        mon.true("outline-order", nps is None, "sides of different length", key)
        x = mcl[:, 0]
        if (np.diff(upf[:, 0]) > 0).all() and (np.diff(lo[:, 0]) > 0).all():
            y1, y2 = np.interp(x, upf[:, 0], upf[:, 1]), np.interp(x, lo[:, 0], lo[:, 1])
            k = x > x[0] + 0.02
            mon.close("camber-midway", mcl[k, 1], ((y1 + y2) / 2)[k], 4e-3, 1.0, "sides of different length", key=key)
            mon.close("thickness", np.array(a.thickness, float)[k], np.column_stack([x, y1 - y2])[k], 8e-3, 1.0, "sides of different length", key=key)
            mon.close("camber-midway", mcl[[0, -1]], (upf[[0, -1]] + lo[[0, -1]]) / 2, 4e-3, 1.0, key=key)
        return
    mon.close("camber-midway", mcl, (upf + lo) / 2, 1e-12, 1.0, key=key)
    mon.close("camber-midway", np.array(a.upper_minus_mcl, float), (upf - lo) / 2, 1e-12, 1.0, key=key)
    mon.close("thickness", np.array(a.thickness, float), np.column_stack([mcl[:, 0], np.linalg.norm(upf - lo, axis=1)]), 1e-10, 1.0, key=key)
    f = np.sort(np.hstack([[0.0, 1.0], np.random.default_rng(len(c)).uniform(size=9), np.linspace(0, 1, 6)]))
    s = np.array(a.get_downsampled_mcl(f), float)
    mon.close("sampling", s, ref.polyline_at(mcl, f), 1e-9, 1.0, key=key)
    mon.true("sampling", dist(s, mcl).max() < 1e-9, "samples off the camber line", key)
    mon.close("sampling", s[[0, -1]], mcl[[0, -1]], 1e-12, 1.0, msg="end points", key=key)
    if (np.diff(mcl[:, 0]) > 0).all():
        xs = np.array([0.0, 0.1, 0.333, 0.77, 1.0])
        xs = xs[(xs >= mcl[0, 0]) & (xs <= mcl[-1, 0])]
        mon.close("camber-at-fraction", [float(a.get_camber_at_chord_fraction(x)) for x in xs], np.interp(xs, mcl[:, 0], mcl[:, 1]), 1e-9, 1e-3, key=key)


def run_case(case, rng, mon):
    if case["kind"] == "naca":
        for d in case["names"]:
            naca(d, rng, mon)
    elif case["kind"] == "db":
        for d in case["names"]:
            database(d, rng, mon)
    else:
        custom(rng, mon)


def naca(d, rng, mon):
    up, lo, x, yc, yt = naca_outline(d)
    whole = np.vstack([up[::-1], lo[1:]])
    fmt = choice(rng, ["naca{}", "NACA{}", " Naca{} "])
    a = ps.geometry.Airfoil(name=fmt.format(d))
    mon.true("case-insensitive", a.name == fmt.format(d), "name kept")
    mon.state("naca", d)
    structure(a, mon, 400)
    t = int(d[2:]) / 100
    m, p = int(d[0]) / 100, int(d[1]) / 10 or 0.5
    # The part of the nose ahead of x = 0, which resampling from 0 to 1 cannot keep.
    nose = (1.4845 * t * np.sin(np.arctan(2 * m / p))) ** 2 / 4
    tol = 2e-4 + 3e-3 * t + 1.4 * nose + 0.012 * t * np.sin(np.arctan(2 * m / (1 - p)))
    mon.close("four-digit-outline", dist_fine(np.array(a.coordinates), whole), np.zeros(799), tol, 1.0, d)
    # The outline reaches from nose to tail: every analytic point is close to it as well.
    mon.close("four-digit-outline", dist(whole[::80], np.array(a.coordinates)), np.zeros(len(whole[::80])), 2 * tol, 1.0, d)
    b = ps.geometry.Airfoil(name=fmt.format(d), repanel=False)
    structure(b, mon)
    # As generated, the points lie on the analytic outline exactly.
    mon.close("four-digit-outline", dist_fine(np.array(b.coordinates), whole), np.zeros(len(b.coordinates)), 1e-6, 1.0, d)
    if d[:2] == "00":
        mon.close("four-digit-camber", np.array(a.mcl_coordinates)[:, 1], np.zeros(400), 1e-12, 1.0)
        xx = np.array(a.thickness)[:, 0]
        tt = 10 * t * (0.2969 * np.sqrt(xx) - 0.126 * xx - 0.3516 * xx**2 + 0.2843 * xx**3 - 0.1015 * xx**4)
        mon.close("four-digit-camber", np.array(a.thickness)[xx > 1e-3, 1], tt[xx > 1e-3], 2e-3, msg="thickness")
    else:
        k = np.array(a.mcl_coordinates)
        s = (k[:, 0] > 0.1) & (k[:, 0] < 0.99)
        # Midway between the surfaces at equal x, and thickness normal to the camber line, differ at second order.
        slope2 = (2 * m / min(p, 1 - p)) ** 2
        dy = np.abs(np.interp(k[s, 0], x[1:-1], (yt * np.gradient(yt, np.maximum(x, 1e-300)))[1:-1])) if t else 0.0
        err = np.abs(k[s, 1] - np.interp(k[s, 0], x, yc))
        tol_c = m * (0.02 + 2.5 * slope2) + 2.5 * dy * slope2**0.5 + 1e-4
        mon.true("four-digit-camber", (err <= tol_c).all(), lambda: f"{d}: camber {err.max():.4g} off, worst ratio {(err / tol_c).max():.3g}")
        mon.margins["four-digit-camber"] = max(mon.margins.get("four-digit-camber", (0, 1)), (float((err / tol_c).max()), 1.0))
        mon.close("four-digit-camber", k[-1], [1, 0], 2e-3 + 0.012 * t, 1.0, d)


def database(n, rng, mon):
    if n.lower().startswith("naca") and n[4:].isdigit() and len(n) == 8:
        return
    raw = read_dat(n)
    key = "db:" + n
    try:
        exact = ps.geometry.Airfoil.__new__(ps.geometry.Airfoil)
        exact.name = n
        exact.populate_coordinates()
        mon.close("database-coordinates", np.array(exact.coordinates, float), raw, 0.0, msg=n, key=key)
        nm = choice(rng, [n, n.upper(), n.lower(), " " + n + " "])
        a = ps.geometry.Airfoil(name=nm)
        mon.true("database-loads", np.isfinite(np.array(a.coordinates)).all(), n, key)
        mon.true("case-insensitive", a.name == nm, "name kept", key)
    except Exception as e:
        mon.true("database-loads", False, f"{n}: {type(e).__name__}: {e}", key)
        return
    mon.state("db", n)
    structure(a, mon, 400, key)
    c = np.array(a.coordinates)
    shape(raw, c, mon, n, key)


def shape(raw, c, mon, n, key, tols=(1e-4, 1e-3, 2.5e-3, 4.5e-3, 8e-3)):
    d = dist(raw, np.vstack([c, c[:1]]))
    e = dist(c, np.vstack([raw, raw[:1]]))
    for nm, v, t in (("most points of the source", np.quantile(d, 0.8), tols[0]), ("nearly all points of the source", np.quantile(d, 0.9), tols[1]),
                     ("a point of the source", d.max(), tols[2]), ("most new points", np.quantile(e, 0.9), tols[3]), ("a new point", e.max(), tols[4])):
        mon.true("repanel-keeps-curve", v <= t, lambda: f"{n}: {nm} {v:.3g} off (> {t:g})", key)


def custom(rng, mon):
    """An outline supplied by the user, on its own point distribution."""
    n1, n2 = int(rng.integers(30, 150)), int(rng.integers(30, 150))
    c, t, pos = R(rng, -0.08, 0.08), R(rng, 0.04, 0.25), R(rng, 0.3, 0.6)
    te = choice(rng, [0.0, 0.002])
    cam = lambda x: np.where(x < pos, c / pos**2 * (2 * pos * x - x * x), c / (1 - pos) ** 2 * (1 - 2 * pos + 2 * pos * x - x * x))
    th = lambda x: t * (1.4845 * np.sqrt(x) - 0.63 * x - 1.758 * x**2 + 1.4215 * x**3 - 0.518 * x**4) + te * x
    xu = 0.5 * (1 - np.cos(np.linspace(0, np.pi, n1)))
    xl = 0.5 * (1 - np.cos(np.linspace(0, np.pi, n2)))
    up = np.column_stack([xu, cam(xu) + th(xu)])
    lo = np.column_stack([xl, cam(xl) - th(xl)])
    co = np.vstack([up[::-1], lo[1:]])
    keep = co.copy()
    name = "my outline"
    mon.sample = dict(n1=n1, n2=n2, camber=c, thickness=t)
    nps = int(choice(rng, [30, 81, 200, 400, 401]))
    a = ps.geometry.Airfoil(name=name, coordinates=co, repanel=True, n_points_per_side=nps)
    mon.true("input-untouched", np.array_equal(co, keep), "the supplied array was changed")
    mon.true("supplied-coordinates-kept", a.name == name and a.n_points_per_side == nps, "attributes")
    structure(a, mon, nps)
    g = np.array(a.coordinates)
    h = 60 / min(n1, n2) * 1e-3 + 40 / nps * 4e-3
    # The supplied points at the new outline, and the new points on the true curve.
    mon.true("repanel-keeps-curve", dist(co, g).max() <= h, lambda: f"supplied point {dist(co, g).max():.3g} off > {h:.3g}")
    xs = 0.5 * (1 - np.cos(np.linspace(0, np.pi, 4001)))
    fine = np.vstack([np.column_stack([xs, cam(xs) + th(xs)])[::-1], np.column_stack([xs, cam(xs) - th(xs)])[1:]])
    mon.true("repanel-keeps-curve", dist_fine(g, fine).max() <= h * 1.5, lambda: f"new point {dist_fine(g, fine).max():.3g} off > {1.5 * h:.3g}")
    k = np.array(a.mcl_coordinates)
    mon.close("camber-midway", k[:, 1], cam(k[:, 0]), 2 * h, 1.0)
    if n1 == n2 or rng.integers(2):
        # Without repanelling the supplied points are kept exactly.
        if n1 != n2:
            lo2 = np.column_stack([xu, cam(xu) - th(xu)])
            co = np.vstack([up[::-1], lo2[1:]])
            keep = co.copy()
        b = ps.geometry.Airfoil(name=name, coordinates=co, repanel=False)
        mon.true("supplied-coordinates-kept", np.array_equal(b.coordinates, keep), "supplied coordinates changed without repanelling")
        structure(b, mon)
        # Repanelling again at will gives what was asked for, and twice the same curve.
        b.repanel_current_airfoil(n_points_per_side=nps)
        mon.true("point-count", len(b.coordinates) == 2 * nps - 1, "repanel_current_airfoil's count")
        mon.true("repanel-keeps-curve", dist_fine(np.array(b.coordinates), fine).max() <= 1.5 * h, "repanel_current_airfoil")
