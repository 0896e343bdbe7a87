"""Executes one scenario under its schedule and records the history."""
import gc
import io
import os
import shutil
import sys
import tempfile
import traceback
import zlib

import numpy as np

from . import boot, build, fn
from .boot import WORLD, dolfin, festim
from .build import Budget, Kill

SCRATCH = os.environ.get("VERIF_SCRATCH") or os.path.join(boot.VERIF, ".scratch")


class HarnessError(BaseException):
    pass


class Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


def quiet():
    sys.stdout = Sink()


class work_dir:
    """A scratch directory removed afterwards."""

    def __enter__(self):
        os.makedirs(SCRATCH, exist_ok=True)
        self.d = tempfile.mkdtemp(dir=SCRATCH, prefix="w")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class FieldProbe(festim.DerivedQuantity):
    """A user's derived quantity: receives the exported function of a field."""

    @property
    def title(self):
        return "probe %s" % self.field

    def compute(self, *a):
        return 0.0


class Probe(festim.DerivedQuantities):
    """A user's export that looks at every accepted step."""

    def __init__(self, cb, fields=()):
        super().__init__([FieldProbe(f) for f in fields])
        self.cb = cb

    def is_compute(self, nb_iterations):
        return True

    def is_export(self, *a):
        return False

    def compute(self, t):
        self.cb(t)

    def write(self):
        return True


class Reader:
    """Reads the fields of a simulation as cell-wise vertex values."""

    def __init__(self, sim, sc):
        self.sim, self.sc = sim, sc
        self.nt = len(sc["traps"])
        self.nsk = sum(len(b["surfaces"]) for b in sc["bcs"] if b["kind"] == "sk")
        u = sim.h_transport_problem.u
        V = u.function_space()
        self.nc = V.mesh().num_cells()
        if self.nt + self.nsk == 0:
            self.idx = [self.dofs(V)]
        else:
            self.idx = [self.dofs(V.sub(i)) for i in range(1 + self.nt + self.nsk)]

    def dofs(self, V):
        dm = V.dofmap()
        return np.array([dm.cell_dofs(c) for c in range(self.nc)])

    def field(self, f):
        return f.vector().get_local()[self.dofs(f.function_space())]

    def conc(self, u):
        v = u.vector().get_local()
        out = {"mob": v[self.idx[0]], "traps": [v[self.idx[1 + i]] for i in range(self.nt)],
               "sk": [float(v[self.idx[1 + self.nt + i][0, 0]]) for i in range(self.nsk)]}
        return out

    def state(self):
        st = self.conc(self.sim.h_transport_problem.u)
        st["T"] = self.field(self.sim.T.T)
        st["dens"] = []
        for t, tr in zip(self.sc["traps"], self.sim.traps):
            if t["kind"] == "trap" or not self.sc["settings"]["transient"]:
                st["dens"].append(None)
            else:
                st["dens"].append(self.field(tr.density[0]))
        return st


class Hist:
    """History of one run."""

    def __init__(self):
        self.solves = []   # (role, decision kind, iterations, converged, stepsize)
        self.accepts = []  # {"t", "st", "nsolve"}
        self.outcome = None
        self.faults = {}
        self.start = None
        self.geo = None
        self.data = {}  # exported data read after the run

    @property
    def times(self):
        return [a["t"] for a in self.accepts]

    def hsolves(self):
        return [s for s in self.solves if s[0] == "H"]


class Runner:
    """One simulation object with its recorder; may be initialised and run several times."""

    def __init__(self, sc, work, states=True, extra=(), on_accept=None, sim=None):
        self.sc, self.work, self.states = sc, work, states
        self.h = None
        self.reader = None
        self.on_accept = on_accept
        self.probe = self.new_probe()
        self.calls = {"H": 0, "T": 0, "E": 0}
        self.event = 0
        self.budget = sc.get("budget", 400)
        self.sched = sc.get("schedule") or {}
        self.phase = "build"
        self.sim = None
        self.extra = extra
        self.share = None

    def new_probe(self):
        self.fields = ["solute", "T"] + [str(i + 1) for i in range(len(self.sc["traps"]))]
        return Probe(self._probe, [build.ident(self.sc, f) for f in self.fields])

    # ---------------------------------------------------------------- seams
    def role(self, solver, x):
        sim = self.sim
        hp = sim.h_transport_problem
        if hp is not None and hp.u is not None and (solver is hp.newton_solver or x.id() == hp.u.vector().id()):
            return "H"
        T = sim.T
        if solver is getattr(T, "newton_solver", None) or (getattr(T, "T", None) is not None and x.id() == T.T.vector().id()):
            return "T"
        return "E"

    def on_solve(self, solver, problem, x, real):
        r = self.role(solver, x)
        n = self.calls[r]
        self.calls[r] += 1
        self.event += 1
        if sum(self.calls.values()) > self.budget:
            raise Budget()
        d = self.sched.get(r, {}).get(str(n)) or self.sched.get("default", {}).get(r)
        k = d[0] if d else "real"
        if k not in ("real", "fake"):
            key = r + ":" + k + (":" + str(d[1]) if k == "div" else "")
            self.h.faults[key] = self.h.faults.get(key, 0) + 1
        dt = self.dt_now()
        if k == "real":
            try:
                it, ok = real()
            except RuntimeError:
                self.h.solves.append((r, "real", 0, "raised", dt))
                raise
        elif k == "fake":  # solver stub: nothing is solved
            it, ok = d[1], True
        elif k == "fakediv":
            it, ok = d[1], False
        elif k == "it":
            it, ok = real()
            it = d[1] if ok else it
        elif k == "div":
            self.corrupt(d[1], x, real, n)
            it, ok = int(d[2]), False
            if solver.parameters["error_on_nonconvergence"]:
                self.h.solves.append((r, k, it, "raised", dt))
                raise RuntimeError("*** Error: Unable to solve nonlinear system with NewtonSolver. (simulated)")
        elif k == "raise":
            self.corrupt(d[1], x, real, n)
            self.h.solves.append((r, k, 0, "raised", dt))
            raise RuntimeError("*** Error: Unable to successfully call PETSc function 'KSPSolve'. (simulated)")
        elif k == "kill":
            if len(d) > 1:
                self.corrupt(d[1], x, real, n)
            self.h.solves.append((r, k, 0, "kill", dt))
            raise Kill()
        elif k == "call":  # run something else in the middle (interleaving)
            self.hook(d[1])
            it, ok = real()
        else:
            raise HarnessError("decision %r" % (d,))
        self.h.solves.append((r, k, int(it), bool(ok), dt))
        return it, ok

    def dt_now(self):
        dt = self.sim.dt
        return None if dt is None else float(dt.value)

    def corrupt(self, mode, x, real, n):
        if mode == "keep":
            try:
                real()
            except RuntimeError:
                pass
            return
        v = x.get_local()
        if mode == "nan":
            v[:] = np.nan
        elif mode == "zero":
            v[:] = 0
        elif mode == "scale":
            v = v * 50 + 3
        elif mode == "noise":
            v = v + np.random.Generator(np.random.PCG64([n, len(v)])).normal(size=len(v)) * 5
        x.set_local(v)
        x.apply("insert")

    def hook(self, arg):
        raise HarnessError("no hook")

    def _probe(self, t):
        try:
            rec = {"t": float(t), "nsolve": len(self.h.solves)}
            if self.states:
                rec["st"] = self.reader.state()
                rec["exp"] = {f: self.reader.field(q.function) for f, q in zip(self.fields, self.probe)}
            self.h.accepts.append(rec)
            self.event += 1
            cb = self.on_accept
        except Exception:
            raise HarnessError(traceback.format_exc())
        if cb is not None:
            cb(self, rec)

    def enter(self):
        WORLD.on_solve = self.on_solve
        c = self.sc.get("clock")
        WORLD.clock_fn = clock(c) if c else None

    # ---------------------------------------------------------------- operations
    def build(self):
        self.sim = build.simulation(self.sc, self.work, [self.probe], shared=self.share)
        return self

    def initialise(self):
        self.h = Hist()
        self.calls = {"H": 0, "T": 0, "E": 0}
        self.phase = "initialise"
        self.enter()
        self.sim.initialise()
        self.reader = Reader(self.sim, self.sc)
        self.h.geo = build.geo(self.sc, self.sim.mesh.mesh)
        if self.states and self.sc["settings"]["transient"]:
            st = self.reader.conc(self.sim.h_transport_problem.u_n)
            st["T"] = self.reader.field(self.sim.T.T)
            st["dens"] = [None if t["kind"] == "trap" else np.zeros_like(st["mob"]) for t in self.sc["traps"]]
            self.h.start = st

    def run(self):
        self.phase = "run"
        self.enter()
        self.sim.run()

    def go(self, build_first=True, reset=True):
        """build, initialise, run; the outcome goes to the history"""
        try:
            if build_first:
                self.h = Hist()
                self.build()
            self.initialise()
            self.run()
            self.h.outcome = ("ok",)
        except HarnessError:
            raise
        except Budget:
            self.h.outcome = ("budget", self.phase)
        except Kill:
            self.h.outcome = ("kill", self.phase)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = [(os.path.relpath(f.filename, boot.REPO), f.name) for f in tb if f.filename.startswith(os.path.realpath(boot.REPO))]
            self.h.outcome = ("error", type(e).__name__, str(e).strip()[:300], self.phase, where[-1] if where else None)
            self.h.exc = e.with_traceback(None)
        finally:
            if reset:
                WORLD.reset()
        return self.h


def clock(c):
    r = np.random.Generator(np.random.PCG64([c["seed"]]))

    def f():
        k = c["kind"]
        if k == "tick":
            return 0.01
        if k == "jump":
            return float(r.choice([0.01, 1e6, 3600.0]))
        if k == "back":
            return float(r.normal() * 1e3)
        if k == "stall":
            return 0.0
        if k == "nan":
            return 1e300
        raise KeyError(k)

    return f


def simulate(sc, states=True, keep=None, share=None, **kw):
    """Runs a scenario in a fresh scratch directory; `keep(work, runner)` looks at the files."""
    with work_dir() as w:
        if sc.get("stale"):  # the files of an earlier run, by other objects
            old = Runner(dict(sc, **sc["stale"]), w, states=False)
            old.go()
            del old
            gc.collect()
        r = Runner(sc, w, states=states, **kw)
        r.share = share
        h = r.go()
        h.runner = None
        if keep is not None:
            h.files = keep(w, r)
    return h


def digest(h):
    """Digest of a history: everything observable."""
    crc = zlib.crc32(repr((h.outcome and h.outcome[:2], h.solves, h.times)).encode())
    for a in h.accepts:
        if "st" in a:
            for v in [a["st"]["mob"], a["st"]["T"]] + a["st"]["traps"] + [d for d in a["st"]["dens"] if d is not None]:
                crc = zlib.crc32(np.ascontiguousarray(v).tobytes(), crc)
            crc = zlib.crc32(repr(a["st"]["sk"]).encode(), crc)
    return crc
