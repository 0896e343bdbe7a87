"""Families of cases (one per property) and how a case is executed.

A case is JSON data; `execute(case)` is a function of the case and of the code under /repo only and returns
(violations, statistics).  Violations are (class, message) pairs.
"""
import inspect
import json
import os
import pickle
import subprocess
import sys
import threading
import zlib

import numpy as np

from . import boot, build, fn, oracles as O, outputs as X, run as R, scenario as S, shim
from .boot import WORLD, festim
from .build import Budget, Kill

ORACLES = {f.__name__[2:]: f for f in (O.o_outcome, O.o_times, O.o_milestones, O.o_stepsize, O.o_start, O.o_residual, O.o_balance, O.o_closed,
                                       O.o_imposed, O.o_temperature, O.o_exported_T, O.o_potential, O.o_exported_fields, O.o_failures,
                                       X.o_dq, X.o_txt, X.o_xdmf)}
ORACLES["residual_boundary"] = lambda c, h: O.o_residual(c, h, fields=("mob", "sk"), where="boundary")
ORACLES["residual_traps"] = lambda c, h: O.o_residual(c, h, fields=("trap", "dens", "mob"))
ORACLES["imposed_H"] = lambda c, h: O.o_imposed(c, h, fields=("H",))
STATELESS = {"outcome", "times", "milestones", "stepsize", "failures"}


# ---------------------------------------------------------------- statistics
class Stat(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def hist(self, h):
        """counts of one simulated run"""
        self.add("runs")
        self.add("steps", len(h.accepts))
        self.add("solves", len(h.solves))
        self.add("simtime", float(h.times[-1]) if h.times else 0.0)
        for k, n in h.faults.items():
            self.add("fault " + k, n)
        retries = sum(1 for s in h.solves if s[0] == "H" and s[3] is False)
        if retries:
            self.add("reach retried solve", retries)
        if h.outcome[0] == "error":
            self.add("reach run ended by error")
        sig = zlib.crc32(repr([(r, k, it, ok) for r, k, it, ok, dt in h.solves]).encode())
        self.setdefault("sigs", []).append(sig)
        return h


def apply_oracles(names, sc, h):
    c = O.Ctx(sc, h)
    out = []
    failed_steady = not sc["settings"]["transient"] and h.outcome[0] != "ok"
    for n in names:
        if failed_steady and n not in STATELESS:
            continue
        if h.outcome[0] == "error" and h.outcome[3] in ("build",) and n not in STATELESS:
            continue
        if not h.accepts and n not in STATELESS and n != "start":
            continue
        if n == "start" and h.start is None:
            continue
        out += list(ORACLES[n](c, h))
        if out:
            break
    return out


# ---------------------------------------------------------------- kind: run
def k_run(case, st):
    sc = case["sc"]
    states = any(n not in STATELESS for n in case["oracles"])

    def keep(w, rn):
        if sc.get("exports") and rn.sim is not None and rn.reader is not None:
            rn.h.data = X.collect(sc, w, rn.sim)

    if sc.get("stale"):
        st.add("fault files of an earlier run")
    h = st.hist(R.simulate(sc, states=states, keep=keep))
    return apply_oracles(case["oracles"], sc, h)


# ---------------------------------------------------------------- comparison of two runs
def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def same_text(a, b, tol, floor=0.0):
    """same lines and, cell by cell, the same numbers (on the scale of their column, not below the floor)"""
    if a is None or b is None:
        return a is None and b is None
    if a == b:
        return True
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return False
    cells = [(x.split(","), y.split(",")) for x, y in zip(la, lb)]
    scale = {}
    for x, _ in cells[1:]:
        for j, v in enumerate(map(num, x)):
            if v is not None and np.isfinite(v):
                scale[j] = max(scale.get(j, 0.0), abs(v))
    for x, y in cells:
        if len(x) != len(y):
            return False
        for j, (u, v) in enumerate(zip(x, y)):
            if u != v:
                p, q = num(u), num(v)
                if p is None or q is None:
                    if u.startswith("t=") and v.startswith("t="):  # rounded label
                        p, q = num(u[2:-1]), num(v[2:-1])
                        if p is not None and q is not None and abs(p - q) <= 0.02 * max(abs(p), abs(q)):
                            continue
                    return False
                if not abs(p - q) <= tol * max(abs(p), abs(q), scale.get(j, 0.0) * 1e-3, floor if np.isscalar(floor) else floor[j - 1] if j else 0.0, 1e-30):
                    return False
    return True


def diff_arr(a, b, tol, floor=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    if a.size == 0:
        return None
    f = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(a[~f], b[~f], equal_nan=True):
        return "not finite in one of them"
    if not f.any():
        return None
    a, b = a[f], b[f]
    s = max(np.abs(a).max(), np.abs(b).max(), floor)
    e = np.abs(a - b).max()
    if not O.within("compare", e, tol * s):
        return "%.3g apart (of %.3g)" % (e, s)
    return None


def diff_hist(a, b, tol=1e-7, ttol=1e-9, states=True, skip=(), data=True):
    """(class, message) of the first difference between two histories, or None.  a is the run judged."""
    if a.outcome[0] != b.outcome[0]:
        return "outcome", "ended with %s, the reference with %s" % (a.outcome[:3], b.outcome[:3])
    if len(a.times) != len(b.times) or any(not O.near(x, y, ttol) for x, y in zip(a.times, b.times)):
        return "times", "accepted times %s, the reference %s" % (a.times[:12], b.times[:12])
    if states:
        for n, (x, y) in enumerate(zip(a.accepts, b.accepts)):
            for k in ("mob", "T"):
                d = diff_arr(x["st"][k], y["st"][k], tol)
                if d:
                    return "state", "step %d (t=%.9g): %s is %s" % (n + 1, x["t"], k, d)
            for k in ("traps", "dens"):
                for j, (u, v) in enumerate(zip(x["st"][k], y["st"][k])):
                    if u is None or v is None:
                        continue
                    d = diff_arr(u, v, tol)
                    if d:
                        return "state", "step %d (t=%.9g): %s %d is %s" % (n + 1, x["t"], k, j + 1, d)
            d = diff_arr(x["st"]["sk"], y["st"]["sk"], tol)
            if d:
                return "state", "step %d: adsorbed is %s" % (n + 1, d)
            for k in x["exp"]:
                d = diff_arr(x["exp"][k], y["exp"][k], tol)
                if d:
                    return "exported", "step %d (t=%.9g): exported %s is %s" % (n + 1, x["t"], k, d)
    if data:
        return diff_data(a.data, b.data, tol, skip)
    return None


def diff_data(a, b, tol=1e-7, skip=()):
    for f in sorted(set(a) & set(b)):
        if f in skip:
            continue
        x, y = a[f], b[f]
        if x["kind"] == "dq":
            if len(x["t"]) != len(y["t"]) or diff_arr(x["t"], y["t"], 1e-9):
                return "records", "%s: records at %s, the reference %s" % (f, x["t"], y["t"])
            for j, (u, v) in enumerate(zip(x["qd"], y["qd"])):
                d = diff_arr(u, v, tol * 10, x["floor"][j])
                if d:
                    return "records", "%s: quantity %d is %s" % (f, j, d)
            if len(x["data"]) != len(y["data"]):
                return "records", "%s: table of %d rows, the reference %d" % (f, len(x["data"]), len(y["data"]))
            if x["data"] and x["data"][0] != y["data"][0]:
                return "records", "%s: header %s, the reference %s" % (f, x["data"][0], y["data"][0])
        if x["kind"] in ("dq", "txt"):
            if not same_text(x["file"], y["file"], tol * 10, x["floor"]):
                return "file", "%s differs from the reference: %r / %r" % (f, (x["file"] or "")[:120], (y["file"] or "")[:120])
        else:
            p, q = x.get("times"), y.get("times")
            if (p is None) != (q is None) or (p is not None and (len(p) != len(q) or diff_arr(p, q, 1e-6))):
                return "file", "%s holds times %s, the reference %s" % (f, p, q)
            if x.get("unreadable") or y.get("unreadable"):
                if x.get("unreadable") != y.get("unreadable"):
                    return "file", "%s cannot be read: %s, the reference: %s" % (f, x.get("unreadable"), y.get("unreadable"))
            for n, (u, v) in enumerate(zip(x.get("fields", x.get("nodes", [])), y.get("fields", y.get("nodes", [])))):
                d = diff_arr(u, v, tol * 10)
                if d:
                    return "file", "%s: record %d is %s" % (f, n, d)
    return None


def keep_all(sc):
    def keep(w, rn):
        if sc.get("exports") and rn.sim is not None and rn.reader is not None:
            rn.h.data = X.collect(sc, w, rn.sim)

    return keep


# ---------------------------------------------------------------- kind: twin (C04)
def twin_of(sc, times):
    """the same model driven through the same times by a solver that never fails"""
    t = dict(sc)
    d = {"initial": times[0], "ratio": 1e9, "max": None, "min": None, "milestones": list(times)}
    t["dt"] = d
    t["schedule"] = {"default": {"H": ["it", 1]}}
    return t


def k_twin(case, st):
    sc = case["sc"]
    h = st.hist(R.simulate(sc, keep=keep_all(sc)))
    v = apply_oracles(case["oracles"], sc, h)
    if v:
        return v
    ts = h.times
    if h.outcome[0] != "ok" or any(b - a < 3e-5 * b for a, b in zip([0.0] + ts, ts)):
        st.add("twin not comparable")
        return []
    t = twin_of(sc, ts)
    g = st.hist(R.simulate(t, keep=keep_all(t)))
    if g.outcome[0] != "ok":
        return [("twin-error", "the run without failures ended with %s" % (g.outcome,))]
    if len(g.times) != len(ts):
        st.add("twin not comparable")
        return []
    st.add("twin compared")
    d = diff_hist(h, g, tol=2e-7, ttol=1e-9)
    return [("trace-of-failure-" + d[0], d[1])] if d else []


# ---------------------------------------------------------------- kind: history (C14)
PARTS = ("mesh", "materials", "sources", "boundary_conditions", "traps", "settings", "temperature", "initial_conditions", "dt", "exports")


class Shared(R.Runner):
    """One simulation object driven through several stages."""

    def pooled(self, sc, new):
        """traps of the scenario: the objects of the last stage's traps are the same in every stage"""
        perm = sc.get("trapperm", list(range(len(sc["traps"]))))
        out = []
        for k, t, x in zip(perm, sc["traps"], new.traps):
            out.append(self.pool.setdefault(repr((k, t)), x))
        new.traps = out
        for e, x in zip(sc["exports"], [x for x in new.exports if type(x).__name__ != "Probe"]):
            if "trap" in e:
                x.trap = out[e["trap"]]

    def adopt(self, stage, first):
        """moves the simulation to the scenario of this stage"""
        sc = stage["sc"]
        if first:
            self.sc = sc
            self.pool = {}
            self.build()
            self.pooled(sc, self.sim)
            return
        self.sc = sc
        if "exports" in stage["replace"]:
            self.probe = self.new_probe()
        new = build.simulation(sc, self.work, [self.probe])
        self.pooled(sc, new)
        sim = self.sim
        for k in stage["replace"]:
            if k == "mesh":
                sim.mesh, sim.materials = new.mesh, new.materials
            elif k == "materials":
                if stage.get("inplace") and len(sim.materials) == len(new.materials):
                    for a, b in zip(sim.materials, new.materials):
                        for q in ("D_0", "E_D", "S_0", "E_S", "Q", "thermal_cond", "heat_capacity", "rho", "solubility_law", "id", "name", "borders"):
                            setattr(a, q, getattr(b, q))
                else:
                    sim.materials = new.materials
            elif k == "temperature":
                if stage.get("edit") and type(sim.T) is type(new.T) and isinstance(new.T, (festim.Temperature, festim.HeatTransferProblem)):
                    for q in ("value", "transient", "initial_condition", "absolute_tolerance", "relative_tolerance", "maximum_iterations",
                              "linear_solver", "preconditioner"):
                        if hasattr(new.T, q) and not isinstance(new.T, festim.TemperatureFromXDMF):
                            setattr(sim.T, q, getattr(new.T, q))
                    if isinstance(new.T, festim.TemperatureFromXDMF):
                        sim.T = new.T
                else:
                    sim.T = new.T
            elif k == "traps" and stage.get("edit"):
                sim.traps = [self.retuned(a, b, t) for (a, b), t in zip(pairs([x for x in sim.traps if not any(x is y for y in new.traps)], new.traps), sc["traps"])]
            elif k == "settings":
                if stage.get("inplace"):
                    for a in ("final_time", "transient", "absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver", "preconditioner", "chemical_pot",
                              "soret", "traps_element_type", "update_jacobian"):
                        setattr(sim.settings, a, getattr(new.settings, a))
                else:
                    sim.settings = new.settings
            elif k == "dt":
                if stage.get("inplace") and sim.dt is not None and new.dt is not None:
                    sim.dt.initial_value = new.dt.initial_value
                    sim.dt.adaptive_stepsize = new.dt.adaptive_stepsize
                    sim.dt.milestones = new.dt.milestones
                else:
                    sim.dt = new.dt
            elif stage.get("edit") and k in ("boundary_conditions", "sources", "initial_conditions", "exports"):
                setattr(sim, k, [edited(a, b) for a, b in pairs(getattr(sim, k), getattr(new, k))])
            else:
                setattr(sim, k, getattr(new, k))
        if "exports" in stage["replace"] and ("traps" not in stage["replace"] or stage.get("edit")):
            mine = [x for x in sim.exports if type(x).__name__ != "Probe"]
            for e, x in zip(sc["exports"], mine):
                if "trap" in e:
                    x.trap = sim.traps[e["trap"]]
        self.sched = sc.get("schedule") or {}
        self.budget = sc.get("budget", 400)

    def retuned(self, a, b, t):
        """trap a with the rates and density of b, as a user changes them"""
        if type(a) is not festim.Trap or a is b:
            return b
        for q in ("k_0", "E_k", "p_0", "E_p", "density"):
            setattr(a, q, getattr(b, q))
        a.id = t.get("id")
        a.materials = [m.name if isinstance(m, festim.Material) else m for m in b.materials]
        self.pool = {k: v for k, v in self.pool.items() if v is not a and v is not b}
        return a

    def stage(self, stage, first):
        self.adopt(stage, first)
        self.abort_step = stage.get("abort_step")
        for _ in range(stage.get("inits", 1) - 1):
            try:
                self.initialise()
            except (Exception, Kill):  # part of the history; what is wrong by itself shows below
                pass
        if stage["do"] == "init":
            self.initialise()
            self.h.outcome = ("init",)
            return self.h
        if stage.get("io") is not None:
            sh = shim.get()
            sh.arm(self.work, (".csv", ".txt"), stage["io"], shim.ERROR, 28)
            try:
                h = self.go(build_first=False)
                h.io = sh.fired()
                return h
            finally:
                sh.disarm()
        return self.go(build_first=False)


def parameters(x):
    """names of the arguments of the constructors of an object"""
    out = []
    for c in type(x).__mro__[:-1]:
        if "__init__" in vars(c):
            out += [n for n, p in inspect.signature(c.__init__).parameters.items() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and n != "self"]
    return out


def pairs(old, new):
    """(object to keep or None, object wanted)"""
    left = [x for x in old if type(x).__name__ != "Probe"]
    out = []
    for b in new:
        a = next((x for x in left if type(x) is type(b)), None)
        if a is not None:
            left = [x for x in left if x is not a]
        out.append((a, b))
    return out


def edited(a, b):
    """a with the parameters of b, as a user changes an object"""
    if a is None or isinstance(b, (festim.SurfaceKinetics,)):
        return b
    if isinstance(a, list):
        a.clear()
        a.extend(list(b))
    for n in parameters(b):
        if hasattr(b, n) and hasattr(a, n):
            setattr(a, n, getattr(b, n))
    if hasattr(b, "prms"):
        a.prms = b.prms
    return a


class UserStop(Exception):
    """raised by a user's own export"""


def k_history(case, st):
    """last stage of a history on one object against a fresh object"""
    stages = case["stages"]
    sc = stages[-1]["sc"]
    with R.work_dir() as w:
        def stop(rn, rec):
            if rn.abort_step is not None and len(rn.h.accepts) >= rn.abort_step:
                raise UserStop("simulated failure of a user's export")

        rn = Shared(stages[0]["sc"], w, on_accept=stop)
        rn.abort_step = None
        rn.h = R.Hist()
        for n, s in enumerate(stages):
            try:
                h = rn.stage(s, n == 0)
            except (Budget, Kill, R.HarnessError):
                raise
            except Exception as e:  # noqa: BLE001
                return [("history-error", "stage %d: %s: %s" % (n + 1, type(e).__name__, str(e)[:300]))]
            finally:
                WORLD.reset()
            if n == len(stages) - 1 or s["do"] == "init":
                st.add("fault history: initialise" if s["do"] == "init" else "reach last stage")
                continue
            st.hist(h)
            o = h.outcome[0]
            st.add("fault history: " + ("completed run" if o == "ok" else "interrupted run" if o == "kill" else "write error" if getattr(h, "io", 0)
                                        else "user export error" if o == "error" and h.outcome[1] == "UserStop" else "failed run"))
            if o == "budget" or (o == "error" and s["do"] == "run" and list(O.o_outcome(O.Ctx(s["sc"], h), h))):
                return [("history-error", "stage %d ended with %s" % (n + 1, h.outcome))]
        st.hist(h)
        if rn.reader is not None and sc.get("exports"):
            h.data = X.collect(sc, w, rn.sim)
    g = st.hist(R.simulate(sc, keep=keep_all(sc)))
    if h.outcome[0] == "ok" or g.outcome[0] == "ok" or h.outcome[3:] != g.outcome[3:]:
        for k in ("replace", "inplace"):
            for q in stages[-1].get(k) or [] if k == "replace" else (["in place"] if stages[-1].get(k) else []):
                st.add("reach changed " + q)
    for f, d in g.data.items():  # a file this run does not write may be an older run's
        if d.get("file", 0) is None or d.get("times", 0) is None:
            for dd in (d, h.data.get(f, {})):
                for q in ("file", "times"):
                    if q in dd:
                        dd[q] = None
                for q in ("fields", "unreadable"):
                    dd.pop(q, None)
    d = diff_hist(h, g, tol=1e-7)
    return [("not-fresh-" + d[0], d[1])] if d else []


# ---------------------------------------------------------------- kind: interleaving (C18)
class Baton:
    """Runs several tasks in threads, one at a time; `turns` decides who runs after each switch point."""

    def __init__(self, turns):
        self.turns = list(turns)
        self.k = 0
        self.tasks = []
        self.current = None
        self.switches = 0
        self.order = []

    def spawn(self, f):
        t = {"ev": threading.Semaphore(0), "done": False, "i": len(self.tasks)}

        def body():
            t["ev"].acquire()
            try:
                t["res"] = f(t)
            except BaseException as e:  # noqa: BLE001
                t["exc"] = e
            t["done"] = True
            self.next()

        t["th"] = threading.Thread(target=body, daemon=True)
        self.tasks.append(t)
        return t

    def choose(self):
        ready = [t for t in self.tasks if not t["done"]]
        if not ready:
            return None
        if self.k < len(self.turns):
            j = self.turns[self.k] % len(ready)
            self.k += 1
            return ready[j]
        if self.current is not None and not self.current["done"]:
            return self.current
        return ready[0]

    def next(self):
        t = self.choose()
        if t is None:
            self.end.release()
            return
        self.current = t
        self.order.append(t["i"])
        t["ev"].release()

    def switch(self, t):
        n = self.choose()
        if n is t:
            return
        self.switches += 1
        self.current = n
        self.order.append(n["i"])
        n["ev"].release()
        t["ev"].acquire()

    def run(self):
        self.end = threading.Semaphore(0)
        for t in self.tasks:
            t["th"].start()
        self.next()
        while not self.end.acquire(timeout=0.5):
            pass


def k_interleave(case, st):
    """several simulations interleaved against each of them alone"""
    scs = case["scs"]
    solo = None
    if case.get("solo_first"):
        solo = [R.simulate(sc, keep=keep_all(sc)) for sc in scs]
    b = Baton(case["turns"])
    who = threading.local()
    hs = [None] * len(scs)
    shared = {}

    def task(j):
        sc = scs[j]

        def f(t):
            who.r = None
            with R.work_dir() as w:
                rn = R.Runner(sc, w, on_accept=lambda r, rec: b.switch(t))
                rn.share = shared if case.get("share") else None
                inner = rn.on_solve

                def solve(solver, problem, x, real):
                    b.switch(t)
                    WORLD.on_solve = dispatch
                    return inner(solver, problem, x, real)

                who.solve = solve
                rn.enter = lambda: setattr(WORLD, "on_solve", dispatch)
                h = rn.go(reset=False)
                if rn.reader is not None and sc.get("exports"):
                    h.data = X.collect(sc, w, rn.sim)
                hs[j] = h
            return None

        return f

    def dispatch(solver, problem, x, real):
        return who.solve(solver, problem, x, real)

    for j in range(len(scs)):
        b.spawn(task(j))
    WORLD.on_solve = dispatch
    try:
        b.run()
    finally:
        WORLD.reset()
    for t in b.tasks:
        if "exc" in t:
            raise t["exc"]
    st.add("reach switch between simulations", b.switches)
    st.setdefault("orders", []).append(zlib.crc32(repr(b.order).encode()))
    for h in hs:
        st.hist(h)
    if solo is None:
        solo = [R.simulate(sc, keep=keep_all(sc)) for sc in scs]
    for h in solo:
        st.hist(h)
    for j, (a, g) in enumerate(zip(hs, solo)):
        d = diff_hist(a, g, tol=1e-9, ttol=1e-12)
        if d:
            return [("interference-" + d[0], "simulation %d: %s" % (j + 1, d[1]))]
    return []


def k_variant(case, st):
    """the same simulation under another environment"""
    sc = case["sc"]
    v = case["variant"]
    st.add("fault environment: " + v["name"])
    shared = {} if v.get("reuse") else None
    if v.get("reuse"):  # the same mesh and material objects serve another simulation first
        q = dict(sc, **v["reuse"])
        st.hist(R.simulate(q, share=shared))
    for q in v.get("before", []):
        st.hist(R.simulate(q))
    h = st.hist(R.simulate(dict(sc, **v.get("set", {})), keep=keep_all(sc), share=shared))
    alt = dict(sc)
    if v.get("fewer"):
        alt["exports"] = [e for k, e in enumerate(sc["exports"]) if k not in v["fewer"]]
    if v.get("reverse"):
        alt["exports"] = list(sc["exports"])[::-1]
    if v.get("hashseed") is not None:
        g = elsewhere(alt, v["hashseed"])
    else:
        g = R.simulate(alt, keep=keep_all(alt))
    st.hist(g)
    d = diff_hist(h, g, tol=1e-9, ttol=1e-12)
    return [("environment-" + d[0], "%s: %s" % (v["name"], d[1]))] if d else []


def elsewhere(sc, hashseed):
    """the history of the scenario in another interpreter"""
    with R.work_dir() as w:
        a, b = os.path.join(w, "sc.json"), os.path.join(w, "h.pickle")
        with open(a, "w") as f:
            json.dump(sc, f)
        e = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
        e["VERIF_HASHSEED"] = str(hashseed)
        r = subprocess.run([sys.executable, os.path.join(boot.VERIF, "check.py"), "--exec", a, "--out", b], env=e, capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise R.HarnessError(r.stderr[-2000:])
        with open(b, "rb") as f:
            return pickle.load(f)


def execute_one(path, out):
    with open(path) as f:
        sc = json.load(f)
    h = R.simulate(sc, keep=keep_all(sc))
    h.runner = h.geo = h.exc = None
    with open(out, "wb") as f:
        pickle.dump(h, f)


KINDS = {"run": k_run, "twin": k_twin, "history": k_history, "interleave": k_interleave, "variant": k_variant}


def execute(case):
    st = Stat()
    v = KINDS[case["kind"]](case, st)
    for k, x in O.MARGIN.items():
        st["margin " + k] = x
    O.MARGIN.clear()
    st["nontrivial"] = bool(st.get("steps", 0) >= 1)
    return [list(map(str, x)) for x in v], st
