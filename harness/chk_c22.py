"""C22: the problems of the convergence study and their result files."""
import os
import pathlib
import random
import shutil
import subprocess
import sys

import h5py
import numpy as np

from fx import fixed, fixedv
from rig import make_tableau, quiet
from rkopenmdao import butcher_tableaux
from rkopenmdao.butcher_tableaux import (
    embedded_second_order_three_stage_esdirk, embedded_second_order_two_stage_sdirk,
    embedded_third_order_four_stage_esdirk)
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import integral, pseudo
from rkopenmdao.error_measurer import SimpleErrorMeasurer
from rkopenmdao.file_writer import read_hdf5_file, read_last_local_error
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.termination_criterion import (PredefinedFinalTime,
                                              PredefinedNumberOfSteps)
from rkopenmdao.utils import problems
from rkopenmdao.utils.problems import ProblemConfig

COUNT = {"quick": 120, "thorough": 1600}
SHIPPED = [embedded_second_order_three_stage_esdirk, embedded_second_order_two_stage_sdirk,
           embedded_third_order_four_stage_esdirk]
NAMES = ["SDIRK2", "Implicit Euler", "Runge, Kutta 4", "implicit euler", "sdirk2", "X",
         "Runge Kutta, 4", "1e-03 X"]
STEPS = [1e-3, 2e-3, 1.5e-3, 0.25, 0.2, 0.1, 0.125, 2.5e-1, 0.15, 1.0]


def scenarios(tier, seed):
    return ([{"s": f"{seed}/{i}"} for i in range(COUNT[tier])]
            + [{"s": f"{seed}/avg{i}", "key": "study-average"} for i in range(6)]
            + [{"s": f"{seed}/import", "key": "study-import"}])


class World:
    def __init__(self, rng):
        self.rng = rng
        self.kind = rng.choice(["pr", "kaps"])
        self.root = pathlib.Path(os.getcwd()) / "study"
        shutil.rmtree(self.root, ignore_errors=True)
        for f in ("output.h5", "other.h5"):
            if os.path.exists(f):
                os.remove(f)
        self.how = rng.choice(["default", "given", "parsed", "parsed default"])
        self.inv = rng.choice([1, 2, 4, 8])
        if self.kind == "pr":
            self.par = -100.0 if "default" in self.how else rng.choice(
                [-1.0, -10.0, -30.5, 0.0])
        else:
            self.par = 1.0 if "default" in self.how else 1.0 / self.inv
        self.inv = round(1 / self.par) if self.kind == "kaps" else 0
        long = {"pr": "prothero_robinson", "kaps": "kaps"}[self.kind]
        with quiet():
            if "parsed" in self.how:
                keep = sys.argv
                sys.argv = ["prog", long] + (
                    [] if "default" in self.how else [f"--stiffness={self.par}"])
                try:
                    self.p = problems.parse_problem()
                finally:
                    sys.argv = keep
            else:
                f = getattr(problems, long + "_problem")
                self.p = f() if self.how == "default" else f(self.par)
        self.p.folder_path = self.root
        self.p.step_sizes = np.array(rng.sample(STEPS, rng.choice([1, 2, 3])))
        self.names = rng.sample(NAMES, 2)

    def make(self):
        return {"op": "make", "kind": self.kind, "quantities": list(self.p.quantities)}

    def solution(self):
        rng = self.rng
        t0, y = rng.choice([0.0, 0.5]), rng.choice([1.0, -0.5, 1.5])
        t = t0 + rng.choice([0.0, 0.125, 0.0625, 1.0])
        y0 = [y] if self.kind == "pr" else [y * y, y]
        iv = np.array(y0) if rng.random() < 0.5 else [np.array([v]) for v in y0]
        x = np.ravel(np.asarray(self.p.solution(t, iv, t0), dtype=float))
        return {"op": "solution", "kind": self.kind, "par": fixed(self.par),
                "t0": fixed(t0), "t": fixed(t), "y0": fixedv(y0), "x": fixedv(x)}

    def _type(self):
        rng = self.rng
        return rng.choice(["adaptive", "avg_homogeneous", float(rng.choice(STEPS)),
                           self.rng.choice(list(self.p.step_sizes))])

    def path(self):
        rng = self.rng
        name = rng.choice(NAMES)
        kind = rng.choice([self._type(), self._type(), "other", 1])
        return self.named(name, kind)

    def named(self, name, kind):
        step = float(kind).hex() if isinstance(kind, float) else ""
        k = kind if isinstance(kind, str) else (
            "homogeneous" if isinstance(kind, float) else "int")
        e = {"op": "path", "kind": k, "step": step, "name": [ord(c) for c in name],
             "refused": 0, "dir": "", "root": "", "path": ""}
        try:
            label, p = self.p.get_file_path(name, kind)
            p = pathlib.Path(p)
            if p.suffix != ".h5" or p.stem != label:
                raise AssertionError(f"{label} {p}")
            e.update(path=str(p), dir=p.parent.name, root=str(p.parent.parent))
        except ValueError:
            e["refused"] = 1
        return e

    def exists(self):
        name, kind = self.rng.choice(self.names), self._type()
        p = str(self.p.get_file_path(name, kind)[1])
        return {"op": "exists", "path": p, "res": int(self.p.file_exists(name, kind))}

    def remove(self):
        p = [q for q in self.written if os.path.isfile(q)]
        if not p:
            return self.exists()
        p = self.rng.choice(p)
        os.remove(p)
        return {"op": "remove", "path": p}

    def tolerance(self):
        name = self.rng.choice(self.names)
        with quiet():
            res = self.p.compute_tolerance(name)
        return {"op": "tolerance", "res": fixed(res),
                "paths": [str(self.p.get_file_path(name, s)[1])
                          for s in self.p.step_sizes]}

    def generate(self):
        d = self.rng.choice(["gen/a/", "gen/", "", "gen/b.h5/"])
        ext = self.rng.choice(["h5", "png", "txt"])
        if self.rng.random() < 0.3:
            shutil.rmtree("gen", ignore_errors=True)
        path = d + "file." + ext
        before = os.path.isdir(d or ".")
        with quiet():
            res = problems.generate_path(path)
        return {"op": "generate", "ext": ext, "before": int(before), "same": int(res == path),
                "after": int(os.path.isdir(d or "."))}

    def tableau(self, h):
        rng = self.rng
        if self.kind == "pr" and rng.random() < 0.5:
            t = rng.choice(SHIPPED)
            A, b = np.array(t.butcher_matrix), np.array(t.butcher_weight_vector)
            bh = np.array(t.butcher_adaptive_weights)
            return t, A, b, bh, np.array(t.butcher_time_stages)
        implicit = self.kind == "pr" or rng.random() < 0.5
        if implicit:
            A = [[rng.choice([1.0, 0.5, 0.75])]]
            tab = {"A": A, "b": [1.0], "c": [A[0][0]], "bh": [rng.choice([0.75, 0.875])]}
            return (make_tableau(tab), np.array(A), np.array([1.0]),
                    np.array(tab["bh"]), np.array([A[0][0]]))
        a = rng.choice([1.0, 0.5, 0.75])
        w = 1 / (2 * a)
        tab = {"A": [[0.0, 0.0], [a, 0.0]], "b": [1 - w, w], "c": [0.0, a],
               "bh": [1.0, 0.0]}
        return (make_tableau(tab), np.array(tab["A"]), np.array(tab["b"]),
                np.array(tab["bh"]), np.array(tab["c"]))

    def execute(self):
        rng = self.rng
        name = rng.choice(self.names)
        kind = self._type()
        if rng.random() < 0.7:
            kind = rng.choice(list(self.p.step_sizes))
        h = kind if isinstance(kind, float) else rng.choice([0.1, 0.05])
        t, A, b, bh, c = self.tableau(h)
        adaptive = isinstance(kind, str) and rng.random() < 0.7
        if self.kind == "kaps" and not A.diagonal().any():
            h = min(h, 0.2 / self.inv)  # an explicit scheme
        n, end, tol = 0, 0.0, 0.0
        with quiet():
            if adaptive:
                end, tol = rng.choice([0.25, 0.5]), rng.choice(
                    [1e-2, 4e-3] if len(b) == 1 else [1e-3, 1e-4])
                cfg = ProblemConfig(
                    IntegrationConfig(True, PredefinedFinalTime(end), 0.02), [integral],
                    SimpleErrorMeasurer(),
                    options={"config": ErrorControllerConfig(tol)})
            else:
                n = rng.choice([1, 2, 4])
                cfg = ProblemConfig(
                    IntegrationConfig(True, PredefinedNumberOfSteps(n), h),
                    [pseudo], SimpleErrorMeasurer())
            where = self.p.get_file_path(name, kind)[1]
            if rng.random() < 0.15:
                where = pathlib.Path.cwd() / "output.h5"  # the default
            elif rng.random() < 0.1:
                cfg.write_file = where = pathlib.Path("other.h5")
            else:
                cfg.write_file = where
            self.p.execute(t, cfg)
        return self.record((t, A, b, bh, c), where, n, h, end, tol)

    def record(self, tab, where, n, h, end, tol, **more):
        t, A, b, bh, c = tab
        with quiet():
            time, dev, res = read_hdf5_file(str(where), self.p.quantities,
                                            self.p.solution)
            last = read_last_local_error(str(where))
            with h5py.File(where, "r") as f:
                err = {int(k): float(g["error_measure"][0]) for k, g in f.items()}
        self.written.add(str(where))
        ks = sorted(time)
        if ks != list(range(len(ks))) or set(err) != set(ks):
            raise AssertionError(f"steps {ks} in the file")
        q = self.p.quantities
        kaps_impl = self.kind == "kaps" and bool(A.diagonal().any())
        return {"op": "execute", "kind": self.kind, "par": fixed(self.par), "inv": self.inv,
                "impl": int(kaps_impl), "path": str(where), "n": n, "h": fixed(h),
                "end": fixed(end), "ctol": fixed(tol), "tol": 64 if self.kind == "kaps" else 1,
                "A": [fixedv(r) for r in A], "b": fixedv(b), "c": fixedv(c),
                "bh": fixedv(bh),
                "t": [fixed(time[k]) for k in ks],
                "x": [[fixed(np.ravel(res[v][k])[0]) for v in q] for k in ks],
                "dev": [[fixed(np.ravel(dev[v][k])[0]) for v in q] for k in ks],
                "err": [fixed(err[k]) for k in ks], "last": fixed(last),
                **{"src": "", "paths": [], **more}}

    def scripts(self, average=False):
        """The scripts of the study, one after another."""
        rng = self.rng
        p = self.p
        h = 0.05
        tab = self.tableau(h)
        t, A, b, bh, c = tab
        name = t.name
        p.time_objective = end = 1.0
        sizes = [0.25, 0.125, 0.5, 0.0625]
        if self.kind == "kaps" and not A.diagonal().any():
            sizes = [0.125, 0.0625, 1 / 32]
        p.step_sizes = np.array(sorted(rng.sample(sizes, rng.choice([1, 2]))))
        res = []
        parts = [x for x in ("homogeneous", "adaptive") if rng.random() < 0.8]
        if len(b) == 1 or not A.diagonal().any():
            parts = [x for x in parts if x == "homogeneous"]  # others take many steps
        elif average:
            parts = ["adaptive", "avg"]
        hs, ad, avg = study_scripts()
        paths = [str(p.get_file_path(name, s)[1]) for s in p.step_sizes]
        where = str(p.get_file_path(name, "adaptive")[1])
        if "homogeneous" in parts:
            with quiet():
                hs(p, {"T": t})
            for q, s in zip(paths, p.step_sizes):
                self.written.add(q)
                res.append(self.record(tab, q, round(end / s), float(s), 0.0, 0.0))
        if "adaptive" in parts:
            with quiet():
                tol = float(p.compute_tolerance(name))
                ad(p, {"T": t})
            self.written.add(where)
            res.append(self.record(tab, where, 0, 0.0, end, tol, paths=paths))
        if "avg" in parts:
            with quiet():
                avg(p, {"T": t})
            q = str(p.get_file_path(name, "avg_homogeneous")[1])
            self.written.add(q)
            res.append(self.record(tab, q, -1, 0.0, end, 0.0, src=where))
        return res


def study_scripts():
    d = "/repo/examples/convergence_study"
    if d not in sys.path:
        sys.path.insert(0, d)
    keep, sys.argv = sys.argv, ["prog", "kaps"]
    # a name that the scripts import from the package, see study-import
    name = "embedded_third_order_three_stage_sdirk"
    add = not hasattr(butcher_tableaux, name)
    if add:
        setattr(butcher_tableaux, name,
                butcher_tableaux.embedded_third_order_four_stage_sdirk)
    try:
        from integration_scripts import adaptive, avg_homogeneous, homogeneous
    finally:
        sys.argv = keep
        if add:
            delattr(butcher_tableaux, name)
    return (homogeneous.homogeneous_simulation, adaptive.adaptive_simulation,
            avg_homogeneous.avg_homogeneous_simulation)


def study_import():
    """Are the scripts of the study usable?"""
    p = subprocess.run(
        [sys.executable, "-c", "import sys; sys.argv = ['prog', 'kaps']; "
         "from integration_scripts import adaptive, avg_homogeneous, homogeneous; "
         "import os; os._exit(0)"],
        cwd="/repo/examples/convergence_study", capture_output=True,
        env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    return [{"ev": [{"op": "import", "ok": int(p.returncode == 0)}], "root": "",
             "key": "study-import"}]


def run(sc):
    rng = random.Random(sc["s"])
    if sc.get("key") == "study-import":
        return study_import()
    w = World(rng)
    if sc.get("key") == "study-average":
        w.written = set()
        ev = [w.make(), *w.scripts(average=True)]
        shutil.rmtree(w.root, ignore_errors=True)
        return [{"ev": ev, "root": str(w.root), "key": sc["key"]}]
    w.written = set()
    ev = [w.make()]
    for _ in range(rng.choice([10, 14])):
        op = rng.choice(["path", "path", "exists", "exists", "remove", "tolerance",
                         "generate", "solution", "execute", "execute", "fill"] + ["scripts"] * (len(ev) > 6))
        if op == "scripts":
            ev += w.scripts()
            break
        if op == "fill":  # all step sizes of one scheme
            name = w.names[0]
            for s in list(w.p.step_sizes):
                keep, w.p.step_sizes = w.p.step_sizes, np.array([s])
                names, w.names = w.names, [name]
                typ, w._type = w._type, lambda s=s: s
                try:
                    ev.append(w.execute())
                finally:
                    w.p.step_sizes, w.names, w._type = keep, names, typ
            ev.append(w.tolerance())
            continue
        ev.append(getattr(w, op)())
    shutil.rmtree(w.root, ignore_errors=True)
    shutil.rmtree("gen", ignore_errors=True)
    return [{"ev": ev, "root": str(w.root)}]
