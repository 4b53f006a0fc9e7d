"""Independent reference formulas (plain numpy; nothing from /repo)."""
import numpy as np

LAMB = 1.25643
SQUIRE = 1e-4


def line_velocity(points, a, b, gamma, age=None, nu=0.0):
    """Velocity at points (N,3) by M straight vortices a->b (M,3); returns (N,M,3).

    gamma/(4 pi) * r1 x r2 / (|r1 x r2|^2 + (|r0| rc)^2) * r0.(r1/|r1| - r2/|r2|), where
    the last factor is evaluated in a form without cancellation.
    """
    P = np.asarray(points, float)[:, None, :]
    a = np.asarray(a, float)[None]
    b = np.asarray(b, float)[None]
    g = np.asarray(gamma, float)[None]
    r1 = P - a
    r2 = P - b
    r0 = b - a
    n1 = np.sqrt((r1**2).sum(-1))
    n2 = np.sqrt((r2**2).sum(-1))
    c = np.cross(r1, r2)
    c2 = (c**2).sum(-1)
    d = (r1 * r2).sum(-1)
    if age is None:
        rc = np.zeros_like(g)
    else:
        rc = 2 * np.sqrt(LAMB * (nu + SQUIRE * np.abs(g)) * np.asarray(age, float)[None])
    with np.errstate(all="ignore"):
        # |r1||r2| - r1.r2 = |r1 x r2|^2 / (|r1||r2| + r1.r2) where that is the stable one.
        diff = np.where(d > 0, c2 / (n1 * n2 + d), n1 * n2 - d)
        k = g / (4 * np.pi) * (n1 + n2) * diff / (n1 * n2) / (c2 + (r0**2).sum(-1) * rc**2)
        v = k[..., None] * c
    # On the vortex line, to rounding.
    bad = (c2 < 1e-22 * np.maximum(1e-30, (n1 * n2) ** 2)) | (c2 < (1e-9 * (r0**2).sum(-1)) ** 2) | (n1 == 0) | (n2 == 0)
    v[bad] = 0.0
    return v


def ring_velocity(points, fl, fr, bl, br, gamma, age=None, nu=0.0):
    """(N,M,3); circulation runs FR->FL->BL->BR->FR."""
    return (
        line_velocity(points, fr, fl, gamma, age, nu)
        + line_velocity(points, fl, bl, gamma, age, nu)
        + line_velocity(points, bl, br, gamma, age, nu)
        + line_velocity(points, br, fr, gamma, age, nu)
    )


def horseshoe_velocity(points, fl, fr, bl, br, gamma, age=None, nu=0.0):
    """(N,M,3); comes in along BR->FR, crosses FR->FL and leaves along FL->BL."""
    return (
        line_velocity(points, br, fr, gamma, age, nu)
        + line_velocity(points, fr, fl, gamma, age, nu)
        + line_velocity(points, fl, bl, gamma, age, nu)
    )


# --------------------------------------------------------------- operating point
def wind_axes(alpha, beta):
    """Rows: wind x (upstream), y (right), z (down) unit vectors in geometry axes."""
    a, b = np.radians(alpha), np.radians(beta)
    # Direction the flow goes to, in geometry axes (x back, y right, z up).
    u = np.array([np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)])
    x = -u
    y = np.array([np.cos(a) * np.sin(b), np.cos(b), np.sin(a) * np.sin(b)])
    z = np.array([np.sin(a), 0.0, -np.cos(a)])
    return np.array([x, y, z])


def freestream(op):
    return -wind_axes(op["alpha"], op["beta"])[0] * op["velocity"]


def q_of(op):
    return 0.5 * op["density"] * op["velocity"] ** 2


def coefficients(Fg, Mg, op, s, c, b):
    """Wind-axis force, moment and coefficients from geometry-axis totals."""
    W = wind_axes(op["alpha"], op["beta"])
    F, M = W @ Fg, W @ Mg
    q = q_of(op)
    return F, M, np.array([-F[0], F[1], -F[2]]) / (q * s), M / (q * s) / np.array([b, c, b])


# --------------------------------------------------------------- panels
def panel_quantities(c):
    """c: (..., 4, 3) FL, FR, BL, BR -> dict of arrays."""
    fl, fr, bl, br = c[..., 0, :], c[..., 1, :], c[..., 2, :], c[..., 3, :]
    x = np.cross(fr - bl, fl - br)
    nx = np.linalg.norm(x, axis=-1)
    ch = ((bl - fl) + (br - fr)) / 2
    sp = ((fr - fl) + (br - bl)) / 2
    n = lambda v: v / np.linalg.norm(v, axis=-1)[..., None]
    L = lambda v: np.linalg.norm(v, axis=-1)
    return dict(
        normal=x / nx[..., None], area=nx / 2, colloc=0.125 * (fl + fr) + 0.375 * (bl + br),
        vfl=0.75 * fl + 0.25 * bl, vfr=0.75 * fr + 0.25 * br,
        chordwise=n(ch), spanwise=n(sp),
        avg_span=(L(fr - fl) + L(br - bl)) / 2, avg_chord=(L(bl - fl) + L(br - fr)) / 2,
    )


# --------------------------------------------------------------- airfoils
def naca4_mcl(digits, n=2001):
    m, p = int(digits[0]) / 100, int(digits[1]) / 10
    if p == 0:
        p = 0.5
    x = 0.5 * (1 - np.cos(np.linspace(0, np.pi, n)))
    y = np.where(x <= p, m / p**2 * (2 * p * x - x**2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x**2))
    return x, y


def polyline_at(pts, fractions):
    """Points of a polyline at the given fractions of its length."""
    d = np.hstack((0, np.cumsum(np.sqrt((np.diff(pts, axis=0) ** 2).sum(1)))))
    d = d / d[-1]
    return np.column_stack([np.interp(fractions, d, pts[:, i]) for i in range(pts.shape[1])])


def flapped_polyline(mcl, deflection, hinge):
    """Camber line rotated downwards behind the hinge about its point there."""
    y = np.interp(hinge, mcl[:, 0], mcl[:, 1])
    h = np.array([hinge, y])
    t = np.radians(deflection)
    Rm = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
    out = mcl.copy()
    k = mcl[:, 0] > hinge
    out[k] = (mcl[k] - h) @ Rm.T + h
    return out


def cosspace(n):
    return 0.5 * (1 - np.cos(np.pi * np.arange(n) / (n - 1)))


def rotate(v, axis, degrees):
    t = np.radians(degrees)
    k = np.asarray(axis, float) / np.linalg.norm(axis)
    return v * np.cos(t) + np.cross(k, v) * np.sin(t) + k * np.dot(k, v) * (1 - np.cos(t))


# --------------------------------------------------------------- meshes
def section_frame(s, w):
    n = np.array(s.get("unit_normal_vector") or [0.0, 1.0, 0.0])
    cw = np.array(w.get("unit_chordwise_vector") or [1.0, 0.0, 0.0])
    x = rotate(cw, n, s.get("twist", 0.0))
    return n, x, np.cross(x, n)


def wing_mesh(w, mcls, relative=False):
    """Expected right-half mesh blocks and left-half ones of a wing spec.

    mcls: camber polylines of each section's airfoil. Returns (right, left): lists, per
    section, of (rows+1, cols+1, 3) vertex arrays, inner to outer. left is None for
    one-sided wings, otherwise already mirrored."""
    ncw = w["num_chordwise_panels"]
    f = np.linspace(0, 1, ncw + 1) if w.get("chordwise_spacing", "cosine") == "uniform" else cosspace(ncw + 1)
    root = np.zeros(3) if relative else np.array([w.get("x_le", 0.0), w.get("y_le", 0.0), w.get("z_le", 0.0)])
    wn = np.array(w.get("unit_normal_vector") or [0.0, 1.0, 0.0])

    def blocks(sign):
        out = []
        for i in range(len(w["sections"]) - 1):
            a, b = w["sections"][i], w["sections"][i + 1]
            defl = a.get("control_surface_deflection", 0.0)
            if sign < 0 and a.get("control_surface_type", "symmetric") == "asymmetric":
                defl = -defl
            hinge = a.get("control_surface_hinge_point", 0.75)
            lines = []
            for s, mcl in ((a, mcls[i]), (b, mcls[i + 1])):
                _, x, up = section_frame(s, w)
                p = polyline_at(flapped_polyline(mcl, defl, hinge), f)
                le = np.array([s.get("x_le", 0.0), s.get("y_le", 0.0), s.get("z_le", 0.0)])
                lines.append(root + le + s.get("chord", 1.0) * (p[:, :1] * x + p[:, 1:] * up))
            k = a.get("num_spanwise_panels", 8)
            t = np.linspace(0, 1, k + 1) if a.get("spanwise_spacing", "cosine") == "uniform" else cosspace(k + 1)
            v = lines[0][:, None, :] * (1 - t)[None, :, None] + lines[1][:, None, :] * t[None, :, None]
            if sign < 0:
                v = v - 2 * ((v - root) @ wn)[..., None] * wn
            out.append(v)
        return out

    return blocks(1), (blocks(-1) if w.get("symmetric") else None)


def wing_corners(w, mcls, relative=False):
    """(rows, cols, 4, 3) expected panel corners, tip to tip."""
    right, left = wing_mesh(w, mcls, relative)

    def cells(v):
        return np.stack([v[:-1, :-1], v[:-1, 1:], v[1:, :-1], v[1:, 1:]], axis=2)

    parts = []
    if left is not None:
        for v in reversed(left):
            parts.append(cells(v[:, ::-1]))
    for v in right:
        parts.append(cells(v))
    return np.concatenate(parts, axis=1)
