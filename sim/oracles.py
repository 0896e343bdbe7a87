"""Oracles over a recorded history.  Each yields (class, message); nothing yielded: the property held.

They judge what was observable: accepted times, solver calls and their stepsizes, fields, exported values.
"""
import numpy as np

from . import build, fn, ref, units

RT = 1e-5  # festim's relative tolerance on times


def close(a, b, rtol=RT):
    """festim's notion of the same time (b is the reference)"""
    return abs(a - b) <= rtol * abs(b)


def near(a, b, rtol=1e-9):
    return abs(a - b) <= rtol * max(abs(a), abs(b), 1e-300)


MARGIN = {}


def within(name, e, tol):
    """e <= tol; keeps the largest e/tol seen"""
    r = e / tol if np.isfinite(e) else np.inf
    if r <= 1:
        MARGIN[name] = max(MARGIN.get(name, 0.0), float(r))
    return r <= 1


class Ctx:
    """Scenario with its reference model."""

    def __init__(self, sc, h=None):
        self.sc = sc
        self._m = None
        self._g = h.geo if h is not None else None

    @property
    def m(self):
        if self._m is None:
            self._m = ref.Model(self.sc, self._g or build.geo(self.sc, build.dolfin_mesh(self.sc["mesh"])))
        return self._m

    @property
    def g(self):
        return self.m.g

    @property
    def floor(self):
        """terms below this are in reach of the solver's absolute tolerance (1e-10 in these units)"""
        return 1e-3 * units.size(self.sc)

    @property
    def tol(self):
        """relative residual the documented discretisation leaves"""
        sc = self.sc
        if sc["settings"]["chemical_pot"] and steady_T(sc) and not uniform_T(sc):
            return 2e-2  # solubility at surfaces and in exports is interpolated once
        if sc["settings"]["chemical_pot"] and not uniform_T(sc):
            return 2e-4 if sc["mesh"]["kind"] == "2d" else 2e-5  # quadrature of exponentials of the temperature
        return 1e-6


def steady_T(sc):
    t = sc["temp"]
    return t["kind"] == "xdmf" or (t["kind"] == "heat" and not t["transient"]) or (t["kind"] == "fn" and not fn.time_dependent(t["f"]))


def uniform_T(sc):
    t = sc["temp"]
    return t["kind"] == "fn" and fn.uniform(t["f"])


def max_dt(d, t):
    m = d["max"]
    if isinstance(m, dict):
        return m["a"] if t < m["t0"] else m["b"]
    return m


def milestones(sc):
    """times the run must pass by"""
    ms = list(sc["dt"]["milestones"] or [])
    for e in sc.get("exports", []):
        if e["kind"] == "txt" and e.get("times"):
            ms += list(e["times"])
    return sorted(ms)


def next_ms(ms, t):
    for m in ms:
        if t < m and not close(t, m):
            return m
    return None


def limit(dt, t, ms, tf):
    """(stepsize, why): shortened to land on the next milestone or the final time"""
    why = None
    m = next_ms(ms, t)
    if m is not None and t + dt > m:
        dt, why = m - t, "milestone"
    if t + dt > tf:
        dt, why = tf - t, "final"
    return dt, why


# ---------------------------------------------------------------- expected outcome of a run
def expected(sc, h):
    """('ok',) or ('error', why): what the control law says of this history of solver results."""
    d = sc["dt"] if sc["settings"]["transient"] else None
    if not h.solves:
        return ("ok",)
    r, k, it, ok, dt = h.solves[-1]
    if ok == "raised":
        return ("error", "solver raised")
    if ok == "kill":
        return ("kill",)
    if not sc["settings"]["transient"]:
        return ("ok",) if ok else ("error", "diverged")
    if r == "H" and not ok:
        if d["ratio"] is None:
            return ("error", "fixed stepsize")
        if d["min"] is None:
            return ("error", "no minimum")
        if dt / d["ratio"] < d["min"]:
            return ("error", "minimum stepsize")
        return ("retry",)
    return ("ok",)


def o_outcome(c, h):
    """Any end of the run that its solver history does not explain."""
    sc = c.sc
    e, o = expected(sc, h), h.outcome
    if o[0] == "budget":
        yield "endless", "run did not end within %d solver calls (last time %s)" % (sum(1 for _ in h.solves), h.times[-1:] or None)
    elif o[0] == "error":
        if e[0] != "error":
            yield "unexpected-error", "%s: %s (%s, at %s)" % (o[1], o[2], o[3], o[4])
        elif h.solves[-1][0] == "H" and h.solves[-1][3] is False and o[1] != "ValueError":
            yield "unexpected-error", "%s: %s" % (o[1], o[2])
    elif o[0] == "kill":
        if e[0] != "kill":
            yield "unexpected-kill", str(o)
    else:
        if e[0] == "error":
            yield "failure-reported-as-success", "the run returned normally although %s" % e[1]
        elif e[0] == "kill":
            yield "interruption-swallowed", "the run returned normally although it was interrupted"
        elif e[0] == "retry":
            yield "failure-reported-as-success", "the run returned after a failed solve"


def o_failures(c, h):
    """A failed solve that is neither raised nor attempted again must not be followed by an accepted step."""
    bad = {}
    marks = sorted((a["nsolve"], n) for n, a in enumerate(h.accepts))
    if not c.sc["settings"]["transient"]:
        marks = []  # a steady run has no time steps: only its end counts
    for i, (r, k, it, ok, dt) in enumerate(h.solves):
        while marks and marks[0][0] <= i:
            yield from _unresolved(bad, marks.pop(0)[1])
        if ok is True:
            bad.pop(r, None)
        elif ok in (False, "raised"):
            bad[r] = i
    for m, n in marks:
        yield from _unresolved(bad, n)
    if h.outcome[0] == "ok" and bad:
        yield "failure-reported-as-success", "the run returned although the last solve of %s failed" % sorted(bad)


def _unresolved(bad, n):
    for r, i in sorted(bad.items()):
        yield "failed-state-accepted", "step %d was accepted although solve %d (%s) had failed and was not attempted again" % (n + 1, i, r)


# ---------------------------------------------------------------- C01
def o_times(c, h):
    sc = c.sc
    tf = sc["settings"]["final_time"]
    prev = 0.0
    for t in h.times:
        if not t > prev:
            yield "time-order", "accepted time %.17g after %.17g" % (t, prev)
        if t > tf and not close(t, tf):
            yield "beyond-final", "accepted time %.17g beyond the final time %.17g" % (t, tf)
        prev = t
    if h.outcome[0] == "ok":
        if not h.times or not close(h.times[-1], tf):
            yield "not-at-final", "run returned at %s, final time %.17g" % (h.times[-1:] or None, tf)
        n = [t for t in h.times if close(t, tf)]
        if len(n) > 1:
            yield "not-at-final", "%d steps at the final time" % len(n)


def steps_bound(sc):
    """steps of the control law when every solve takes at most four iterations (None: too many to matter)"""
    d, tf = sc["dt"], sc["settings"]["final_time"]
    ms = milestones(sc)
    t, dt, n = 0.0, d["initial"], 0
    dt, _ = limit(dt, t, ms, tf)
    while t < tf and not close(t, tf):
        t += dt
        n += 1
        if n > 5000:
            return None
        if d["ratio"] is not None:
            dt = dt * d["ratio"]
            m = max_dt(d, t)
            if m is not None:
                dt = min(dt, m)
        else:
            dt = d["initial"]
        dt, _ = limit(dt, t, ms, tf)
    return n


def predict(sc, cap=4000, times=None):
    """(solver calls, how it ends) of the documented control law under the schedule's decisions for H"""
    d, tf = sc["dt"], sc["settings"]["final_time"]
    ms = milestones(sc)
    H = (sc.get("schedule") or {}).get("H", {})
    t, n = 0.0, 0
    dt, _ = limit(d["initial"], t, ms, tf)
    while t < tf and not close(t, tf):
        q = H.get(str(n)) or sc["schedule"]["default"]["H"]
        n += 1
        if n > cap:
            return n, "long"
        if q[0] in ("raise", "kill"):
            return n, q[0]
        ok = q[0] in ("fake", "it", "real")
        it = q[1] if q[0] in ("fake", "it") else 3
        if ok:
            t += dt
            if times is not None:
                times.append(t)
        if d["ratio"] is None:
            if not ok:
                return n, "error"
            dt = d["initial"]
        elif not ok:
            if d["min"] is None or dt / d["ratio"] < d["min"]:
                return n, "error"
            dt /= d["ratio"]
        else:
            dt = dt * d["ratio"] if it < 5 else dt / d["ratio"]
        m = max_dt(d, t) if d["ratio"] is not None else None
        if m is not None:
            dt = min(dt, m)
        dt, _ = limit(dt, t, ms, tf)
        if not dt > 1e-14 * tf and t < tf and not close(t, tf):
            return n, "tiny"
    return n, "end"


# ---------------------------------------------------------------- C02
def o_milestones(c, h):
    sc = c.sc
    tf = sc["settings"]["final_time"]
    reached = h.times[-1] if h.times else 0.0
    for m in milestones(sc):
        if m <= 0 or (m > tf and not close(m, tf)):
            continue
        if m > reached and not close(reached, m) and h.outcome[0] != "ok":
            continue  # the run stopped before
        if not any(close(t, m) for t in h.times):
            yield "milestone-missed", "time %.17g was requested, steps around: %s" % (
                m, [t for t in h.times if abs(t - m) <= sorted(abs(q - m) for q in h.times)[:3][-1]] if h.times else [])


# ---------------------------------------------------------------- C03
def o_stepsize(c, h):
    sc = c.sc
    d, tf = sc["dt"], sc["settings"]["final_time"]
    ms = milestones(sc)
    t = 0.0
    exp, why = limit(d["initial"], t, ms, tf)
    acc = list(h.accepts)
    ns = [(i, s) for i, s in enumerate(h.solves) if s[0] == "H"]
    for n, (i, (r, k, it, ok, dt)) in enumerate(ns):
        if not near(dt, exp, 1e-7):
            yield "stepsize", "solve %d at t=%.17g uses stepsize %.17g, the control law gives %.17g (%s)" % (n, t, dt, exp, why)
            return
        if ok is True:
            if not acc or acc[0]["nsolve"] <= i:
                if h.outcome[0] == "ok":
                    yield "stepsize", "converged solve %d was not recorded as a step" % n
                return
            a = acc.pop(0)
            if not near(a["t"] - t, dt, 1e-6):
                if abs(a["t"] - t - dt) > 1e-11 * a["t"]:
                    yield "interval", "step from %.17g to %.17g was solved with stepsize %.17g" % (t, a["t"], dt)
                    return
            t = a["t"]
            if d["ratio"] is None:
                exp, why = d["initial"], "fixed"
            else:
                exp, why = (dt * d["ratio"], "increase after %d iterations" % it) if it < 5 else (dt / d["ratio"], "decrease after %d iterations" % it)
                m = max_dt(d, t)
                if m is not None and exp > m:
                    exp, why = m, "maximum"
            e2, w2 = limit(exp, t, ms, tf)
            exp, why = (e2, w2) if w2 else (exp, why)
        elif ok is False:
            last = n == len(ns) - 1
            if d["ratio"] is None or d["min"] is None or dt / d["ratio"] < d["min"]:
                if not last:
                    yield "no-error", "solve %d failed at stepsize %.17g (minimum %s) and the run went on" % (n, dt, d["min"])
                    return
                continue
            if last and h.outcome[0] == "error":
                yield "early-error", "%s at stepsize %.17g although the next one %.17g is allowed (minimum %s)" % (
                    h.outcome[2], dt, dt / d["ratio"], d["min"])
                return
            exp, why = dt / d["ratio"], "decrease after failure"
            m = max_dt(d, t)
            if m is not None and exp > m:
                exp, why = m, "maximum"
            e2, w2 = limit(exp, t, ms, tf)
            exp, why = (e2, w2) if w2 else (exp, why)


# ---------------------------------------------------------------- start state
def o_start(c, h):
    """The state the first step starts from is the given initial condition."""
    sc, g = c.sc, c.g
    st = h.start
    if st is None:
        return
    exp = {0: np.zeros((g.nc, g.nl))}
    for i in range(len(sc["traps"])):
        exp[i + 1] = np.zeros((g.nc, g.nl))
    for ic in sc["ics"]:
        if "value" not in ic:
            return
        fi = c.m.field_index(ic["field"])
        exp[fi] = fn.ev(ic["value"], g.xc, 0.0)
    for i, ct in enumerate(st["traps"]):
        e = np.abs(ct - exp[i + 1]).max()
        if not e <= 1e-9 * (units.of(sc, "conc") + np.abs(exp[i + 1]).max()):
            yield "initial-trap", "trap %d starts from a field %.3g away from its initial condition" % (i + 1, e)
    if not sc["settings"]["chemical_pot"]:
        e = np.abs(st["mob"] - exp[0]).max()
        if not e <= 1e-9 * (units.of(sc, "conc") + np.abs(exp[0]).max()):
            yield "initial-mobile", "mobile starts from a field %.3g away from its initial condition" % e
    else:
        # theta is the projection of c/S (or its square root)
        a = ref.Acc(g)
        Tq = g.at_q(st["T"])
        cq = g.at_q(exp[0])
        for mi, m in enumerate(sc["mats"]):
            S = ref.arr(m["S_0"], m["E_S"], Tq)
            th = cq / S if m["law"] == "sievert" else (cq / S) ** 0.5
            a.vol(th, c.m.mask[mi])
            a.vol(-g.at_q(st["mob"]), c.m.mask[mi])
        r, mm = a.done()
        if not within("initial-potential", np.abs(r).max(), 1e-5 * max(mm.max(), 1e-12 * g.meas.max())):
            yield "initial-mobile", "initial potential is not that of the initial concentration (%.3g of %.3g)" % (np.abs(r).max(), mm.max())
    for k, v in enumerate([b["init"] for b in sc["bcs"] if b["kind"] == "sk" for _ in b["surfaces"]]):
        if not near(st["sk"][k], v, 1e-9):
            yield "initial-adsorbed", "adsorbed %d starts from %.17g, given %.17g" % (k, st["sk"][k], v)
    T0 = expected_T(c, 0.0)
    if T0 is not None:
        e = np.abs(st["T"] - T0).max()
        if not e <= 1e-9 * np.abs(T0).max():
            yield "initial-temperature", "temperature starts %.3g away from the initial one" % e


def expected_T(c, t):
    """prescribed temperature (cell-wise) or None; at t=0 the initial temperature of a transient problem"""
    tp, g = c.sc["temp"], c.g
    if tp["kind"] == "fn":
        return fn.ev(tp["f"], g.xc, t)
    if tp["kind"] == "xdmf":
        return fn.ev(tp["f"], g.xc, 0.0)
    if tp["transient"] and t == 0.0 and "ic" in tp:
        return fn.ev(tp["ic"], g.xc, 0.0)
    return None


# ---------------------------------------------------------------- residuals of accepted steps
def steps(c, h):
    """(index, previous state, state, stepsize, time)"""
    prev, tp = h.start, 0.0
    for n, a in enumerate(h.accepts):
        if not c.sc["settings"]["transient"]:
            yield n, None, a["st"], 1.0, 0.0
        else:
            yield n, prev, a["st"], a["t"] - tp, a["t"]
        prev, tp = a["st"], a["t"]


def finite(st):
    return all(np.isfinite(v).all() for v in [st["mob"], st["T"]] + st["traps"]) and np.isfinite(st["sk"]).all() and all(
        d is None or np.isfinite(d).all() for d in st["dens"])


def o_residual(c, h, fields=None, where=None):
    """Every accepted state solves the equations of its step.  fields: prefixes of equations to look at;
    where: 'boundary' restricts to the vertices of surfaces."""
    g = c.g
    tol = c.tol
    surf = np.zeros(g.nv, bool)
    for s in g.facets:
        surf[g.surface_vertices(s)] = True
    bv = surf if where == "boundary" else None
    for n, prev, st, dt, t in steps(c, h):
        if not finite(st):
            yield "not-finite", "step %d at t=%.17g holds values that are not finite" % (n + 1, t)
            return
        for name, (r, m, free) in c.m.residuals(prev, st, dt, t).items():
            if fields and not name.startswith(tuple(fields)):
                continue
            sel = free
            if bv is not None and name == "mob":
                sel = free & bv
            if not sel.any():
                continue
            if name == "mob" and tol > 1e-3:  # away from surfaces the solubility is exact
                inner = sel & ~surf
                e = np.abs(np.where(inner, r, 0)).max() / max(m.max(), c.floor)
                if not within("equation-mob-inner", e, 2e-4):
                    yield "equation-mob", "step %d (t=%.9g, dt=%.6g): residual of mob inside is %.3g of its terms" % (n + 1, t, dt, e)
                    return
            scale = max(m.max(), c.floor)  # the solver stops at an absolute residual of 1e-10
            e = np.abs(np.where(sel, r, 0)).max() / scale
            tt = tol if name == "mob" else max(1e-6, tol) if not name.startswith("dens") else 1e-6
            if not within("equation-%s %g" % (name.rstrip("0123456789"), tt), e, tt):
                w = int(np.abs(np.where(sel, r, 0)).argmax())
                yield "equation-" + name.rstrip("0123456789"), "step %d (t=%.9g, dt=%.6g): residual of %s is %.3g of its terms (at %d)" % (n + 1, t, dt, name, e, w)
                return


def o_balance(c, h):
    """Balance of hydrogen over the step: change of inventory = dt * net inflow (weighted by the coordinates)."""
    g, sc = c.g, c.sc
    if not sc["settings"]["transient"]:
        return
    for n, prev, st, dt, t in steps(c, h):
        if not finite(st):
            yield "not-finite", "step %d at t=%.17g holds values that are not finite" % (n + 1, t)
            return
        res = c.m.residuals(prev, st, dt, t)
        tot = mag = 0.0
        for name, (r, m, free) in res.items():
            if name.startswith("dens"):
                continue
            if g.type == "spherical" and name == "mob":
                e = np.abs(r[free]).max() / max(m.max(), c.floor) if free.any() else 0.0
                if not within("balance", e, c.tol):
                    yield "balance", "step %d (t=%.9g, dt=%.6g): local balance off by %.3g" % (n + 1, t, dt, e)
                    return
                continue
            if name.startswith("sk"):
                w = np.array([1.0])
                if g.type == "cylindrical":
                    w = np.array([1.0])
                tot_sk, mag_sk = float((r * w).sum()), float((m * w).sum())
                if not abs(tot_sk) <= c.tol * max(mag_sk, c.floor):
                    yield "balance", "step %d: adsorbed hydrogen off by %.3g of %.3g" % (n + 1, tot_sk, mag_sk)
                    return
                continue
            if r.ndim == 2:
                w = g.xc[..., 0] if g.type == "cylindrical" else np.ones_like(r)
            else:
                w = g.x[:, 0] if g.type == "cylindrical" else np.ones_like(r)
            if g.type == "spherical":
                w = np.ones_like(r)
            tot += float((r * w)[free].sum())
            mag += float((m * w)[free].sum())
        if not within("balance", abs(tot), c.tol * max(mag, c.floor * (units.of(sc, "length") if g.type == "cylindrical" else 1.0))):
            yield "balance", "step %d (t=%.9g, dt=%.6g): hydrogen created or lost, %.3g of %.3g" % (n + 1, t, dt, tot, mag)
            return


def inventory(c, st):
    """total hydrogen (mobile + trapped), weighted by the coordinates; adsorbed apart"""
    g = c.g
    w = {"cartesian": 1.0, "cylindrical": g.xq[..., 0], "spherical": g.xq[..., 0] ** 2}[g.type] * g.wq
    tot = 0.0
    for mi in range(len(c.sc["mats"])):
        k = c.m.mask[mi]
        tot += float((w * c.m.conc_q(st["mob"], st["T"], mi))[k].sum())
    for ct in st["traps"]:
        tot += float((w * g.at_q(ct)).sum())
    isk = 0
    for b in c.sc["bcs"]:
        if b["kind"] == "sk":
            for s in b["surfaces"]:
                r = g.x[g.surface_vertices(s)[0], 0]
                f = {"cartesian": 1.0, "cylindrical": r, "spherical": r * r}[g.type]
                cell, lv, lam, ww, pts = g.facet_quad(s)[0]
                cp = c.m.conc_point(lam @ st["mob"][cell], lam @ st["T"][cell], cell)
                tot += f * (st["sk"][isk] + b["lam"] * float(cp[0]))
                isk += 1
    return tot


def o_closed(c, h):
    """A closed system (no source, decay or boundary flux) keeps its inventory."""
    sc, g = c.sc, c.g
    if g.type == "spherical" or any(b["field"] != "T" for b in sc["bcs"]) or any(s.get("field") != "T" for s in sc["sources"]):
        return
    if not h.accepts or h.start is None:
        return
    i0 = inventory(c, h.start)
    for n, a in enumerate(h.accepts):
        if not finite(a["st"]):
            return
        i = inventory(c, a["st"])
        if not within("closed", abs(i - i0), 10 * c.tol * max(abs(i0), 1e-6 * units.size(sc) * units.of(sc, "time"))):
            yield "closed-inventory", "step %d: inventory of a closed system went from %.9g to %.9g" % (n + 1, i0, i)
            return


def o_imposed(c, h, fields=None):
    sc = c.sc
    for n, prev, st, dt, t in steps(c, h):
        for bc, s, v, e, a in c.m.imposed(st, t):
            tol = 1e-8
            if bc["field"] == "T":
                if fields and "T" not in fields:
                    continue
                if not sc["temp"]["transient"]:
                    e = c.m.imposed_value(bc, c.g.x[v][None, :], None, 0.0)
            elif fields and "H" not in fields:
                continue
            elif sc["settings"]["chemical_pot"] and c.tol > 1e-4:
                tol = 1e-2
            if not within("imposed", abs(e - a), tol * max(1e-3 * (1.0 if bc["field"] == "T" else units.of(sc, "conc")), abs(e))):
                yield "imposed", "step %d (t=%.9g): %s on surface %s, field %s: %.9g at vertex %d instead of %.9g" % (
                    n + 1, t, bc["kind"], s, bc["field"], a, v, e)
                return


# ---------------------------------------------------------------- temperature
def o_temperature(c, h):
    sc, g = c.sc, c.g
    tp = sc["temp"]
    for n, prev, st, dt, t in steps(c, h):
        if not np.isfinite(st["T"]).all():
            yield "not-finite", "temperature of step %d is not finite" % (n + 1)
            return
        e = expected_T(c, t) if not (tp["kind"] == "heat") else None
        if e is not None:
            if not np.abs(st["T"] - e).max() <= 1e-9 * np.abs(e).max():
                yield "temperature", "step %d (t=%.9g): temperature is %.6g away from the prescribed one" % (n + 1, t, np.abs(st["T"] - e).max())
                return
        elif tp["kind"] == "heat":
            tr = tp["transient"]
            r, m, free = c.m.heat_residual(prev, st, dt, t if tr else 0.0, tr)
            x = np.abs(r[free]).max() / max(m.max(), 1e-3 * units.size(sc, "T")) if free.any() else 0.0
            if not within("heat", x, 1e-6):
                yield "heat-equation", "step %d (t=%.9g, dt=%.6g): residual of the heat equation is %.3g of its terms" % (n + 1, t, dt, x)
                return


def o_exported_T(c, h):
    for n, a in enumerate(h.accepts):
        e = np.abs(a["exp"]["T"] - a["st"]["T"]).max()
        if not e <= 1e-12 * np.abs(a["st"]["T"]).max():
            yield "exported-temperature", "step %d: exported temperature differs by %.3g" % (n + 1, e)
            return


# ---------------------------------------------------------------- chemical potential
def o_potential(c, h):
    sc, g = c.sc, c.g
    if not sc["settings"]["chemical_pot"]:
        return
    for n, a in enumerate(h.accepts):
        st = a["st"]
        if not finite(st):
            return
        want = c.m.fields(st)["solute"]
        got = a["exp"]["solute"]
        if got.shape != want.shape:
            yield "exported-concentration", "shape %s" % (got.shape,)
            return
        tol = 1e-2 if c.tol > 1e-4 else 2e-4 if not uniform_T(sc) else 1e-8
        if not uniform_T(sc):  # quadrature of the projection: a part of how far it is from interpolation
            nod = np.zeros_like(want)
            for mi, m in enumerate(sc["mats"]):
                th = st["mob"] if m["law"] == "sievert" else st["mob"] ** 2
                nod[c.m.mask[mi]] = (th * ref.arr(m["S_0"], m["E_S"], st["T"]))[c.m.mask[mi]]
            tol += 0.2 * np.abs(nod - want).max() / max(np.abs(want).max(), 1e-9)
        e = np.abs(got - want).max()
        if not within("exported-concentration", e, tol * max(np.abs(want).max(), 1e-9)):
            yield "exported-concentration", "step %d (t=%.9g): exported concentration is %.3g away from potential times solubility (%.3g)" % (
                n + 1, a["t"], e, np.abs(want).max())
            return
        # one potential on both sides of every interface
        if uniform_T(sc):
            pot = np.zeros_like(got)
            for mi, m in enumerate(sc["mats"]):
                S = ref.arr(m["S_0"], m["E_S"], st["T"])
                p = np.maximum(got / S, 0) if m["law"] == "sievert" else np.sqrt(np.maximum(got / S, 0))
                pot[c.m.mask[mi]] = p[c.m.mask[mi]]
            if any(m["law"] == "henry" for m in sc["mats"]):
                continue  # theta**2 is projected on P1: not exact at vertices
            lo = np.full(g.nv, np.inf)
            hi = np.full(g.nv, -np.inf)
            np.minimum.at(lo, g.cells, pot)
            np.maximum.at(hi, g.cells, pot)
            if not within("interface", (hi - lo).max(), 1e-7 * max(np.abs(pot).max(), 1e-9)):
                yield "interface", "step %d: potentials on both sides of an interface differ by %.3g" % (n + 1, (hi - lo).max())
                return


def o_exported_fields(c, h):
    """exported solute and traps are the solution of the step"""
    for n, a in enumerate(h.accepts):
        st = a["st"]
        pairs = [(str(i + 1), st["traps"][i]) for i in range(len(st["traps"]))]
        if not c.sc["settings"]["chemical_pot"]:
            pairs.append(("solute", st["mob"]))
        for k, v in pairs:
            if not np.array_equal(a["exp"][k], v):
                yield "exported-field", "step %d: exported field %s is not the solution" % (n + 1, k)
                return
