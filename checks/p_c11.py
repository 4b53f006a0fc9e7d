"""C11: prescribed motion vs an independent evaluation of the waveforms and kinematics."""
import numpy as np

import motion_ref as mr
import ref
from models_lib import add_motion, align, build_movement, choice, corners, ALL_FUNCS, gen_steady, R
import pterasoftware as ps

PROP = "C11"
LEVEL_RULE = (
    "A case is one random movement (any mix of moving quantities, waveforms, periods, amplitudes, step counts, layouts) "
    "whose every time step is compared - speeds, reference points, wing and section positions, twists and all mesh "
    "corners - with an independent evaluation; or one direct call of a waveform function. Non-trivial when something moves."
)
REQUIRED = ["speed", "reference-point", "wing-position", "section-position", "section-twist", "mesh", "rigid-spacing", "periodic", "unmoved", "waveform", "vertical-stays"]
KINDS = ["any", "any", "sections", "sections4", "wing", "ref", "op", "custom", "vertical", "tilt", "incidence", "general", "fin", "periodic", "long", "symmetric", "dihedral", "one-step", "many-steps", "many-parts"]


def make_cases(tier):
    reps = 25 if tier == "quick" else 400
    out = [dict(kind=k, rep=r) for r in range(reps) for k in KINDS]
    return out + [dict(kind="waveform", rep=r) for r in range(reps * 4)]


def gen(kind, rng):
    kw = dict(ncw=int(rng.integers(1, 4)), nsw=int(rng.integers(1, 4)))
    if kind == "sections4":
        kw["nsec"] = 4
    if kind == "vertical":
        kw["orients"] = ("vertical",)
        if rng.integers(2):
            kw["planform"] = "rect"
    if kind in ("tilt", "incidence", "general"):
        kw["orients"] = (kind,)
    if kind == "fin":
        kw.update(nwings=2, orients=("std", "fin"))
    if kind == "symmetric":
        kw["symmetric"] = True
    if kind == "many-steps":
        kw.update(nwings=1, ncw=1, nsw=1, nsec=2)
    if kind == "many-parts":
        kw.update(nwings=int(rng.integers(3, 6)), ncw=1, nsw=1, nsec=int(rng.integers(2, 9)))
    m = gen_steady(rng, nair=1 if kind == "many-steps" else int(rng.integers(1, 6)) if kind == "many-parts" else int(choice(rng, [1, 1, 2])), **kw)
    V = m["op"]["velocity"]
    dt = R(rng, 0.01, 0.4)
    n = 1 if kind == "one-step" else int(rng.integers(2, 30) if kind == "long" else rng.integers(2, 9))
    if kind == "many-steps":
        n = int(choice(rng, [rng.integers(40, 99), rng.integers(101, 300), rng.integers(101, 300)]))
    T = dt * n * R(rng, 0.3, 1.5)
    what = dict(wing=("wing",), ref=("ref",), op=("op",), sections=("sections",), sections4=("sections",), custom=("sections",)).get(kind, ("sections", "wing", "ref", "op"))
    if kind == "periodic":
        n, T = 13, dt * 4
    add_motion(rng, m, T, what=what, amps=(70.0, 40.0, 70.0) if rng.integers(3) == 0 else (20.0, 10.0, 20.0), length=float(choice(rng, [0.1, 2.0])))
    if kind == "many-steps":
        # Everything that can move does, each with a waveform of its own.
        a = m["airplanes"][0]
        w = a["wings"][0]
        for d, q in ((a, "ref"), (w, "le")):
            for ax in "xyz":
                d.setdefault("motion", {}).setdefault(f"{ax}_{q}_amplitude", R(rng, 0.02, 0.2))
                d["motion"].setdefault(f"{ax}_{q}_period", float(round(T * R(rng, 0.3, 1.0), 6)))
                d["motion"].setdefault(f"{ax}_{q}_spacing", choice(rng, ["sine", "uniform"]))
        for q in ("pitching", "sweeping", "heaving"):
            mo = w["sections"][-1].setdefault("motion", {})
            mo.setdefault(f"{q}_amplitude", R(rng, 1.0, 9.0))
            mo.setdefault(f"{q}_period", float(round(T * R(rng, 0.3, 1.0), 6)))
            mo.setdefault(f"{q}_spacing", choice(rng, ["sine", "uniform"]))
        m["op"].setdefault("motion", dict(velocity_amplitude=0.1 * V, velocity_period=T, velocity_spacing=choice(rng, ["sine", "uniform"])))
    if kind == "custom":
        for a in m["airplanes"]:
            for w in a["wings"]:
                for i, s in enumerate(w["sections"]):
                    s["motion"] = dict(pitching_amplitude=R(rng, 1, 20), pitching_period=T, pitching_spacing="custom", custom_pitch_function=choice(rng, sorted(ALL_FUNCS)))
                    if i:
                        s["motion"].update(sweeping_amplitude=R(rng, 1, 30), sweeping_period=T * 0.7, sweeping_spacing="custom", custom_sweep_function=choice(rng, sorted(ALL_FUNCS)),
                                           heaving_amplitude=R(rng, 1, 30), heaving_period=T * 1.2, heaving_spacing="custom", custom_heave_function=choice(rng, sorted(ALL_FUNCS)))
    if kind == "periodic":
        # Make every period four steps.
        for d in [m["op"]] + [x for a in m["airplanes"] for x in [a] + a["wings"] + [s for w in a["wings"] for s in w["sections"]]]:
            for k in d.get("motion") or {}:
                if k.endswith("_period"):
                    d["motion"][k] = T
    if rng.integers(3) == 0:
        # Amplitude without period and period without amplitude both mean no motion.
        s = m["airplanes"][0]["wings"][0]["sections"][-1]
        s.setdefault("motion", {})
        for q in ("sweeping", "heaving"):
            if q + "_amplitude" not in s["motion"] and rng.integers(2):
                s["motion"].update({q + "_amplitude": 10.0, q + "_period": 0.0} if rng.integers(2) else {q + "_amplitude": 0.0, q + "_period": T})
    if kind != "periodic" and n > 4 and rng.integers(2):
        # Whole numbers of steps in the longest period of something.
        align(rng, m, dt, int(rng.integers(3, n - 1)) if n < 100 or rng.integers(2) else int(rng.integers(3, 30)))
    m["time"] = dict(num_steps=n, delta_time=dt)
    return m, dt, n, T


def run_case(case, rng, mon):
    if case["kind"] == "waveform":
        return waveform(rng, mon)
    m, dt, n, T = gen(case["kind"], rng)
    mon.sample = m
    mv = build_movement(m)
    t = np.arange(n) * dt
    mon.state(case["kind"], n, round(T / dt, 3))
    ok = len(mv.airplanes) == len(m["airplanes"]) and all(len(x) == n for x in mv.airplanes) and len(mv.operating_points) == n
    if not mon.true("speed", ok, lambda: f"{[len(x) for x in mv.airplanes]} airplanes, {len(mv.operating_points)} operating points for {n} steps"):
        return
    V = mr.quantity(m["op"].get("motion"), "velocity", m["op"]["velocity"], t)
    mon.close("speed", [o.velocity for o in mv.operating_points], V, 1e-10)
    for spec, steps in zip(m["airplanes"], mv.airplanes):
        e = np.stack([mr.quantity(spec.get("motion"), k, spec.get(k, 0.0), t) for k in ("x_ref", "y_ref", "z_ref")], 1)
        mon.close("reference-point", np.array([[a.x_ref, a.y_ref, a.z_ref] for a in steps], float), e, 1e-10, 1e-2)
        mon.close("reference-point", np.array([a.xyz_ref for a in steps], float), e, 1e-10, 1e-2)
        for iw, w in enumerate(spec["wings"]):
            h = mr.wing_history(w, t)
            W = [a.wings[iw] for a in steps]
            mon.close("wing-position", np.array([[x.x_le, x.y_le, x.z_le] for x in W], float), h[0], 1e-10, 1e-2)
            mon.close("wing-position", np.array([x.leading_edge for x in W], float), h[0], 1e-10, 1e-2)
            got = np.array([[s.leading_edge for s in x.wing_cross_sections] for x in W], float).transpose(1, 0, 2)
            mon.close("section-position", got, h[1], 1e-9, 1e-2)
            got2 = np.array([[[s.x_le, s.y_le, s.z_le] for s in x.wing_cross_sections] for x in W], float).transpose(1, 0, 2)
            mon.close("section-position", got2, h[1], 1e-9, 1e-2)
            tw = np.array([[s.twist for s in x.wing_cross_sections] for x in W], float).T
            mon.close("section-twist", tw, h[2], 1e-9, 1.0)
            L = np.abs(h[1]).max() + max(s["chord"] for s in w["sections"])
            base = np.array([mr.vec(s, mr.LE) for s in w["sections"]])
            gap = np.linalg.norm(np.diff(got, axis=0), axis=-1)
            dyn = np.diff(base, axis=0)
            ok = np.array([d[1] != 0 for d in dyn])
            if ok.any():
                mon.close("rigid-spacing", gap[ok], np.repeat(np.linalg.norm(dyn, axis=1)[ok, None], n, 1), 1e-9, L)
            for i in range(1, len(base)):
                if dyn[i - 1][1] == 0:
                    mon.close("vertical-stays", got[i], np.tile(base[i], (n, 1)), 1e-12, L)
            for i, s in enumerate(w["sections"]):
                mo = s.get("motion") or {}
                if not mo.get("pitching_amplitude") or not mo.get("pitching_period"):
                    mon.close("unmoved", tw[i], np.full(n, s["twist"]), 1e-12, 1.0)
            mcls = mr.mcls_of(W[0])
            for k in sorted({0, n // 2, n - 1}):
                sp = mr.step_spec(w, h, k)
                e = ref.wing_corners(sp, mcls)
                mon.close("mesh", corners(W[k]) - h[0][k], e - h[0][k], 1e-8, L)
            if case["kind"] == "periodic" and all(v in (0.0, T) for v in mr.periods(m)):
                for k in range(n - 4):
                    mon.close("periodic", corners(W[k + 4]), corners(W[k]), 1e-9, L + np.abs(h[0]).max())


def waveform(rng, mon):
    M = ps.movement
    a, T, b = float(rng.normal() * 10), float(10 ** rng.uniform(-3, 3)), float(rng.normal() * 5)
    n, dt = int(rng.integers(1, 200)), float(T * 10 ** rng.uniform(-2.5, 0.5))
    t = np.arange(n) * dt
    f = choice(rng, sorted(ALL_FUNCS))
    mon.sample = dict(amplitude=a, period=T, base=b, num_steps=n, delta_time=dt)
    mon.state(n, round(dt / T, 2))
    kw = dict(amplitude=a, period=T, base_value=b, num_steps=n, delta_time=dt)
    sc = abs(a) + abs(b)
    mon.close("waveform", M.oscillating_sinspace(**kw), mr.wave("sine", a, T, b, t), 1e-8, sc)
    mon.close("waveform", M.oscillating_linspace(**kw), mr.wave("uniform", a, T, b, t), 1e-8, sc)
    mon.close("waveform", M.oscillating_customspace(custom_function=ALL_FUNCS[f], **kw), mr.wave("custom", a, T, b, t, ALL_FUNCS[f]), 1e-8, sc)
    for z in (dict(amplitude=0.0), dict(period=0.0)):
        k2 = dict(kw, **z)
        for g in (M.oscillating_sinspace, M.oscillating_linspace):
            mon.close("unmoved", g(**k2), np.full(n, b), 0.0)
        mon.close("unmoved", M.oscillating_customspace(custom_function=np.cos, **k2), np.full(n, b), 0.0)
