"""Independent construction of what a movement prescribes."""
import numpy as np

import ref
from models_lib import ALL_FUNCS


def wave(spacing, amp, T, base, t, func=None):
    """Values at times t."""
    t = np.asarray(t, float)
    if amp == 0 or T == 0:
        return np.full(t.shape, float(base))
    u = t / T
    if spacing == "sine":
        return base + amp * np.sin(2 * np.pi * u)
    if spacing == "uniform":
        # Triangle: starts at its base value, rising.
        v = (u + 0.25) % 1.0
        return base + amp * (1 - 4 * np.abs(v - 0.5))
    return base + amp * func(2 * np.pi * u)


def quantity(d, name, base, t, cust=None):
    d = d or {}
    f = d.get(cust) if cust else None
    if isinstance(f, str):
        f = ALL_FUNCS[f]
    return wave(d.get(name + "_spacing", "sine"), d.get(name + "_amplitude", 0.0), d.get(name + "_period", 0.0), base, t, f)


def vec(d, names):
    return np.array([d.get(k, 0.0) for k in names], float)


LE = ("x_le", "y_le", "z_le")


def wing_history(w, t):
    """Wing leading edge (T,3), section leading edges (S,T,3), twists (S,T)."""
    root = np.stack([quantity(w.get("motion"), k, w.get(k, 0.0), t) for k in LE], 1)
    les, tws = [], []
    for i, s in enumerate(w["sections"]):
        mo = s.get("motion")
        tw = quantity(mo, "pitching", s.get("twist", 0.0), t, "custom_pitch_function")
        le = np.tile(vec(s, LE), (len(t), 1))
        if i > 0:
            d = vec(s, LE) - vec(w["sections"][i - 1], LE)
            if d[1] == 0:
                tw = np.full(len(t), float(s.get("twist", 0.0)))
            else:
                r = np.linalg.norm(d)
                sw = np.degrees(np.arcsin(np.clip(d[2] / r, -1, 1)))
                hv = np.degrees(np.arctan2(d[0], d[1]))
                S = np.radians(quantity(mo, "sweeping", sw, t, "custom_sweep_function"))
                H = np.radians(quantity(mo, "heaving", hv, t, "custom_heave_function"))
                le = les[-1] + r * np.stack([np.cos(S) * np.sin(H), np.cos(S) * np.cos(H), np.sin(S)], 1)
        les.append(le)
        tws.append(tw)
    return root, np.array(les), np.array(tws)


def step_spec(w, hist, k):
    """The wing spec in force at step k."""
    root, les, tws = hist
    v = {x: y for x, y in w.items() if x not in ("motion", "sections")}
    for a, x in zip(LE, root[k]):
        v[a] = float(x)
    v["sections"] = []
    for i, s in enumerate(w["sections"]):
        s = {x: y for x, y in s.items() if x != "motion"}
        for a, x in zip(LE, les[i, k]):
            s[a] = float(x)
        s["twist"] = float(tws[i, k])
        v["sections"].append(s)
    return v


def periods(m):
    """All periods of a model's motion."""
    out = [0.0]
    for a in m["airplanes"]:
        out += [v for k, v in (a.get("motion") or {}).items() if k.endswith("_period")]
        for w in a["wings"]:
            out += [v for k, v in (w.get("motion") or {}).items() if k.endswith("_period")]
            for s in w["sections"]:
                out += [v for k, v in (s.get("motion") or {}).items() if k.endswith("_period")]
    out += [v for k, v in (m["op"].get("motion") or {}).items() if k.endswith("_period")]
    return out


def mcls_of(wing):
    return [np.array(s.airfoil.mcl_coordinates, float) for s in wing.wing_cross_sections]
