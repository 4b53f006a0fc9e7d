"""C27: the graphical interface runs the example that was chosen, each time, and shows the project's documents."""
import contextlib
import importlib.util
import io
import os
import shutil
import sys

import pterasoftware as ps
from common import Abort
from models_lib import choice

PROP = "C27"
LEVEL_RULE = (
    "A case is one session of the real main window (offscreen) over a scratch copy of the project's layout whose examples record that they were run: a random "
    "sequence of menu choices, with repeats, examples that fail, other files around and directory listings in any order. Non-trivial when an example was chosen."
)
REQUIRED = ["chosen-example", "run-once", "repeated", "terminal", "after-failure", "about", "text", "real-example", "menu"]
ASSUMPTIONS = ["the examples are those of the project, in the folder 'examples' of the working directory, and menu entries name them by their words"]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(ps.__file__)))
CASE_LIMIT = dict(quick=120, thorough=300)
REAL = ["steady_horseshoe_vortex_lattice_method_solver", "steady_ring_vortex_lattice_method_solver", "steady_convergence_example", "analyze_steady_trim_example"]
OTHERS = ["__pycache__", "notes.txt", "data.csv", "README.md", ".hidden", "results", "figure.png", "steady.npz", "a_folder"]


def make_cases(tier):
    reps = 100 if tier == "quick" else 600
    out = [dict(kind="session", rep=r) for r in range(reps)] + [dict(kind="about", rep=r) for r in range(max(12, reps // 6))] + [dict(kind="text", rep=r) for r in range(4)]
    return out + [dict(kind="real", script=s) for s in REAL[: 2 if tier == "quick" else 4]]


def gui():
    """The project's main module, loaded from the working tree without running the interface."""
    if "ptera_main" not in sys.modules:
        spec = importlib.util.spec_from_file_location("ptera_main", os.path.join(ROOT, "main.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["ptera_main"] = m
        spec.loader.exec_module(m)
    return sys.modules["ptera_main"]


def app():
    from PySide6.QtWidgets import QApplication
    return QApplication.instance() or QApplication(["ptera"])


@contextlib.contextmanager
def place(root):
    """Work in the folder like a program that was started there."""
    old, path = os.getcwd(), list(sys.path)
    drop = lambda: [sys.modules.pop(n) for n in list(sys.modules) if n == "examples" or n.startswith("examples.")]
    drop()
    os.chdir(root)
    sys.path.insert(0, root)
    importlib.invalidate_caches()
    try:
        yield
    finally:
        os.chdir(old)
        sys.path[:] = path
        drop()


@contextlib.contextmanager
def hooked():
    """Collects exceptions that escape from the window's slots."""
    seen, old = [], sys.excepthook
    sys.excepthook = lambda t, v, tb: seen.append(v)
    try:
        yield seen
    finally:
        sys.excepthook = old


@contextlib.contextmanager
def listing(order):
    """Folders are listed in some order of the file system's own choice."""
    real, scan = os.listdir, os.scandir
    shuffle = lambda names: sorted(names, key=lambda n: order(os.fsdecode(getattr(n, "name", n))))

    class Scan(list):
        def __enter__(self):
            return iter(self)

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __next__(self):
            return self.pop(0)

    os.listdir = lambda *a: shuffle(real(*a))
    os.scandir = lambda *a: Scan(shuffle(list(scan(*a))))
    try:
        yield
    finally:
        os.listdir, os.scandir = real, scan


def examples():
    return sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, "examples")) if f.endswith(".py") and f != "__init__.py")


def menu(w):
    """Menu entry number -> (action, name of the example it stands for)."""
    names = {" ".join(n.split("_")): n for n in examples()}
    out = {}
    for a in w.menuExamples.actions():
        t = " ".join(a.text().split())
        if ":" not in t or not t.lower().startswith("example "):
            continue
        k, label = t.split(":", 1)
        label = label.strip().lower()
        n = names.get(label)
        if n is None:
            # The steady ring example is labelled static, too.
            n = names.get(label.removesuffix(" static"))
        out[int(k.split()[1])] = (a, n)
    return out


def run_case(case, rng, mon):
    app()
    root = os.path.join(os.getcwd(), "gui")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), hooked() as seen:
            globals()[case["kind"]](case, rng, mon, root, seen)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def session(case, rng, mon, root, seen):
    log = os.path.join(root, "log")
    d = os.path.join(root, "examples")
    os.makedirs(d)
    names = examples()
    bad = set(n for n in names if rng.integers(8) == 0)
    files = [n + ".py" for n in names] + ["__init__.py"] + [o for o in OTHERS if rng.integers(3) == 0]
    for f in rng.permutation(files):
        p = os.path.join(d, f)
        if f.endswith(".py"):
            n = f[:-3]
            with open(p, "w") as h:
                if n != "__init__":
                    h.write(f"with open({log!r}, 'a') as f:\n    f.write({n!r} + chr(10))\nvalue = {n!r}\n")
                    if n in bad:
                        h.write("raise ValueError('this example fails')\n")
        elif "." in f[1:]:
            open(p, "w").close()
        else:
            os.makedirs(p)
    key = {}
    order = lambda n: key.setdefault(n, rng.random())
    if rng.integers(4) == 0:
        order = lambda n: n
    with place(root):
        w = gui().MainWindow()
        m = menu(w)
        if not mon.true("menu", sorted(m) == list(range(1, len(names) + 1)) and sorted(n or "" for _, n in m.values()) == names, lambda: f"menu {dict((k, n) for k, (a, n) in m.items())}"):
            return
        runs = []
        with listing(order):
            last = None
            for _ in range(int(rng.integers(4, 14))):
                k = last if last and rng.integers(3) == 0 else int(rng.integers(1, len(m) + 1))
                a, n = m[k]
                before = w.terminalOutput.count()
                failed, n_seen = any(r in bad for r in runs), len(seen)
                a.trigger()
                got = open(log).read().split() if os.path.exists(log) else []
                new = got[len(runs):]
                again = n in runs
                clause = "repeated" if again else ("after-failure" if failed else "chosen-example")
                errs = [e for e in seen[n_seen:] if not (isinstance(e, ValueError) and str(e) == "this example fails")]
                mon.true(clause, n in new, lambda: f"menu entry {k} ({a.text()!r}) ran {new} instead of {n}; before {runs}; errors {errs}")
                mon.true("run-once", len(new) == 1, lambda: f"menu entry {k} ran {new}; before {runs}; errors {errs}")
                text = [w.terminalOutput.item(i).text() for i in range(before, w.terminalOutput.count())]
                mon.true("terminal", any(f"Example {k} " in t + " " for t in text) and not any(f"Example {j} " in t + " " for t in text for j in m if j != k), lambda: f"menu entry {k} reported {text}")
                runs, last = got, k
                mon.state(k, again, failed, n in bad, len(files))
        w.close()


def about(case, rng, mon, root, seen):
    texts = ["# A title\n\nSome *words* and a [link](https://example.com).\n", "plain\n", "", "# Zoë's wing – α ≈ 5°\n\n* one\n* two ☃\n",
             "\n".join(f"line {i} {rng.integers(10**6)}\n" for i in range(int(choice(rng, [3000, 20000])))), open(os.path.join(ROOT, "README.md"), encoding="utf-8").read()]
    text = texts[case["rep"] % len(texts)]
    with open(os.path.join(root, "README.md"), "w", encoding="utf-8") as f:
        f.write(text)
    from PySide6.QtGui import QTextDocument
    want = QTextDocument()
    want.setMarkdown(text)
    with place(root):
        w = gui().MainWindow()
        for _ in range(2):
            w.actionAbout.trigger()
            ok = getattr(w, "dialog", None) is not None and w.dialog.isVisible()
            got = w.dialog.ui.textEdit.toPlainText() if ok else None
            mon.true("about", ok and got == want.toPlainText(), lambda: f"the about dialog shows {str(got)[:80]!r} for {text[:80]!r}; errors {seen}")
            if ok:
                w.dialog.close()
        mon.state("about", len(text))
        w.close()


def text(case, rng, mon, root, seen):
    w = gui().MainWindow()
    shown = []
    for _ in range(int(rng.integers(2, 6))):
        t = choice(rng, ["done", "", "two words", "α = 5°", "%s {0}", "a very long line " * 30]) + str(int(rng.integers(1000)))
        way = int(rng.integers(2))
        (w.updateDisplayText if way else w.printTerminalOutput)(t)
        shown.append(t)
        got = [w.terminalOutput.item(i).text() for i in range(w.terminalOutput.count())]
        mon.true("text", got == shown and (not way or w.displayText == t), lambda: f"terminal shows {got[-3:]} after {shown[-3:]}")
        mon.state("text", way, len(shown))
    w.close()


def real(case, rng, mon, root, seen):
    """A real example, chosen in the menu, runs its solver and prints the solver's results."""
    import shipped
    shutil.copytree(os.path.join(ROOT, "examples"), os.path.join(root, "examples"), ignore=shutil.ignore_patterns("__pycache__"))
    with place(root):
        w = gui().MainWindow()
        hit = [a for a, n in menu(w).values() if n == case["script"]]
        if len(hit) != 1:
            raise Abort("no such menu entry")
        for i in range(2):
            with shipped.recording() as ran:
                hit[0].trigger()
            want = {"steady_horseshoe": {"horseshoe"}, "steady_ring": {"ring"}}.get("_".join(case["script"].split("_")[:2]), {"horseshoe", "ring"})
            mon.true("real-example", bool(ran) and {k for k, _, _ in ran} <= want and not seen, lambda: f"choice {i + 1} of {case['script']} ran {[k for k, _, _ in ran]}; errors {seen}")
            mon.state("real", case["script"], i, len(ran))
        w.close()
