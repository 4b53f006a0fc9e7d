"""The models and examples that come with the project, run as they are, with their drawings left out."""
import contextlib
import os
import runpy

import pterasoftware as ps
from common import Abort

HS, RING, UN = ("steady_horseshoe_vortex_lattice_method_solver", "steady_ring_vortex_lattice_method_solver",
                "unsteady_ring_vortex_lattice_method_solver_")
STEADY = [(d, n) for d in ("pterasoftware/models", "examples") for n in (HS, RING)]
UNSTEADY = [(d, UN + n) for d in ("pterasoftware/models", "examples") for n in ("static", "variable", "variable_formation")]
SOLVERS = {
    "horseshoe": ("steady_horseshoe_vortex_lattice_method", "SteadyHorseshoeVortexLatticeMethodSolver"),
    "ring": ("steady_ring_vortex_lattice_method", "SteadyRingVortexLatticeMethodSolver"),
    "unsteady": ("unsteady_ring_vortex_lattice_method", "UnsteadyRingVortexLatticeMethodSolver"),
}


@contextlib.contextmanager
def _patched(patches):
    old = [(o, n, o.__dict__[n]) for o, n, _ in patches]
    try:
        for o, n, v in patches:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


@contextlib.contextmanager
def recording(max_steps=None):
    """Collects [(kind, solver, prescribed_wake)] of every solver run; at most max_steps steps each; nothing is drawn."""
    ran, patches = [], []

    def recorded(kind, orig):
        def run(self, *args, **kw):
            if kind == "unsteady":
                kw.setdefault("calculate_streamlines", False)
            kw["logging_level"] = "Critical"
            orig(self, *args, **kw)
            ran.append((kind, self, bool(kw.get("prescribed_wake", True))))
        return run

    for kind, (mod, cls) in SOLVERS.items():
        c = getattr(getattr(ps, mod), cls)
        patches.append((c, "run", recorded(kind, c.run)))
    for n, f in list(vars(ps.output).items()):
        if callable(f) and getattr(f, "__module__", None) == ps.output.__name__:
            patches.append((ps.output, n, lambda *a, **k: None))
    init = ps.movement.Movement.__init__

    def short(self, *args, **kw):
        if max_steps:
            kw.pop("num_cycles", None)
            kw.pop("num_chords", None)
            kw["num_steps"] = max_steps
        init(self, *args, **kw)

    patches.append((ps.movement.Movement, "__init__", short))
    with _patched(patches):
        yield ran


def run(script, max_steps=None):
    """[(kind, solver, prescribed_wake)] for every solver the script ran."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(ps.__file__))), *script) + ".py"
    if not os.path.exists(path):
        raise Abort("script is not there")
    with recording(max_steps) as ran:
        for v in list(runpy.run_path(path).values()):
            if isinstance(v, type) and hasattr(v, "runSolver"):
                v().runSolver()
    return ran


def steady_op(solver):
    o = solver.steady_problem.operating_point
    return dict(density=o.density, velocity=o.velocity, alpha=o.alpha, beta=o.beta)


def steady_spec(solver):
    refs = [dict(zip(("x_ref", "y_ref", "z_ref"), map(float, a.xyz_ref))) for a in solver.airplanes]
    return dict(op=steady_op(solver), airplanes=refs)


def unsteady_cases(tier):
    """Short in the quick tier; as long as written in the thorough one, too."""
    out = [dict(script=list(x), steps=n) for x in UNSTEADY[::2] for n in (6,)]
    if tier != "quick":
        out += [dict(script=list(x), steps=n) for x in UNSTEADY for n in (12, None)]
        out += [dict(script=list(x), steps=20) for x in (("benchmarks", "unsteady_benchmark"), ("formation flight", "formation_flight"))]
    return out
