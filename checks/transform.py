"""Exact transformations of model specs."""
import copy

import numpy as np

MIRROR = np.diag([1.0, -1.0, 1.0])
LENGTHS = ("x_le", "y_le", "z_le", "chord", "x_ref", "y_ref", "z_ref", "c_ref", "b_ref")
MOTION_LENGTHS = tuple(f"{a}_{b}_amplitude" for a in "xyz" for b in ("le", "ref"))


def nodes(m):
    for a in m["airplanes"]:
        yield a
        for w in a["wings"]:
            yield w
            for s in w["sections"]:
                yield s


def scale_lengths(m, f):
    m = copy.deepcopy(m)
    for d in nodes(m):
        for k in LENGTHS:
            if k in d:
                d[k] = d[k] * f
        if "s_ref" in d:
            d["s_ref"] *= f * f
        # The default section chord is one.
        if "airfoil" in d and "chord" not in d:
            d["chord"] = f
        for k in MOTION_LENGTHS:
            if k in (d.get("motion") or {}):
                d["motion"][k] *= f
    return m


def scale_times(m, f):
    m = copy.deepcopy(m)
    for d in list(nodes(m)) + [m["op"]]:
        for k in list(d.get("motion") or {}):
            if k.endswith("_period"):
                d["motion"][k] *= f
    if "delta_time" in (m.get("time") or {}):
        m["time"]["delta_time"] *= f
    return m


def scale_speed(m, f):
    m = copy.deepcopy(m)
    m["op"]["velocity"] *= f
    if "velocity_amplitude" in (m["op"].get("motion") or {}):
        m["op"]["motion"]["velocity_amplitude"] *= f
    return m


def translate(m, d):
    m = copy.deepcopy(m)
    for a in m["airplanes"]:
        for ax, v in zip("xyz", d):
            a[f"{ax}_ref"] = a.get(f"{ax}_ref", 0.0) + float(v)
            for w in a["wings"]:
                w[f"{ax}_le"] = w.get(f"{ax}_le", 0.0) + float(v)
    return m


def _vec(d, names, default=0.0):
    return np.array([d.get(k, default) for k in names], float)


def _set(d, names, v):
    for k, x in zip(names, v):
        d[k] = float(x)


LE = ("x_le", "y_le", "z_le")
REF = ("x_ref", "y_ref", "z_ref")
SEGMENT = ("num_spanwise_panels", "spanwise_spacing", "control_surface_type", "control_surface_deflection", "control_surface_hinge_point")


def mirror_motion(d):
    """Motion along y is reversed."""
    for k in ("y_le_amplitude", "y_ref_amplitude"):
        if k in (d.get("motion") or {}):
            d["motion"][k] = -d["motion"][k]


def mirror_wing(w):
    """The wing reflected in the x-z plane, described as a valid wing again."""
    n = np.array(w.get("unit_normal_vector") or [0.0, 1.0, 0.0])
    cw = np.array(w.get("unit_chordwise_vector") or [1.0, 0.0, 0.0])
    n2 = -MIRROR @ n + 0.0
    out = copy.deepcopy(w)
    root = _vec(w, LE)
    secs = w["sections"]
    if w.get("symmetric"):
        _set(out, LE, MIRROR @ root)
        Q = MIRROR @ (np.eye(3) - 2 * np.outer(n, n))
        for s in out["sections"]:
            _set(s, LE, Q @ _vec(s, LE))
            if s.get("unit_normal_vector") is not None:
                s["unit_normal_vector"] = (Q @ np.array(s["unit_normal_vector"]) + 0.0).tolist()
            if s.get("control_surface_type") == "asymmetric":
                s["control_surface_deflection"] = -s.get("control_surface_deflection", 0.0)
    else:
        tip = _vec(secs[-1], LE)
        _set(out, LE, MIRROR @ (root + tip))
        new = []
        for i in range(len(secs)):
            j = len(secs) - 1 - i
            s = copy.deepcopy(secs[j])
            _set(s, LE, MIRROR @ (_vec(secs[j], LE) - tip) + 0.0)
            if s.get("unit_normal_vector") is not None:
                s["unit_normal_vector"] = (-MIRROR @ np.array(s["unit_normal_vector"]) + 0.0).tolist()
            for k in SEGMENT:
                s.pop(k, None)
                if j > 0 and k in secs[j - 1]:
                    s[k] = secs[j - 1][k]
            new.append(s)
        out["sections"] = new
    if w.get("unit_normal_vector") is not None:
        out["unit_normal_vector"] = n2.tolist()
        for s in out["sections"][:1]:
            s["unit_normal_vector"] = n2.tolist()
    if w.get("unit_chordwise_vector") is not None:
        out["unit_chordwise_vector"] = (MIRROR @ cw).tolist()
    mirror_motion(out)
    return out


def mirror(m):
    m = copy.deepcopy(m)
    for a in m["airplanes"]:
        if "y_ref" in a:
            a["y_ref"] = -a["y_ref"]
        mirror_motion(a)
        a["wings"] = [mirror_wing(w) for w in a["wings"]]
    m["op"]["beta"] = -m["op"].get("beta", 0.0)
    return m
