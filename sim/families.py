"""Case generators: one family per property.  make(seed, i, p): case number p of structure i."""
import numpy as np

from . import fn, oracles as O, outputs as X, scenario as S, units as U

FAM = {}


def family(pid, quick, thorough, oracles=(), **info):
    """quick/thorough: (structures, runs per structure)"""

    def deco(f):
        FAM[pid] = dict(id=pid, make=f, quick=quick, thorough=thorough, oracles=list(oracles), **info)
        return f

    return deco


def case(pid, kind, **k):
    d = {"prop": pid, "kind": kind, "oracles": FAM[pid]["oracles"]}
    d.update(k)
    return d


CLOCKS = ["tick", "jump", "back", "stall", "nan"]


def env(sc, r):
    """clock, log level, mesh numbering"""
    if r.random() < 0.5:
        sc["clock"] = {"kind": str(r.choice(CLOCKS)), "seed": int(r.integers(1 << 30))}
    if r.random() < 0.2:
        sc["log_level"] = int(r.choice([20, 30, 50]))
    if sc["mesh"]["kind"] != "2d":
        if r.random() < 0.3:
            sc["mesh"]["perm"] = int(r.integers(0, 1000))
    elif r.random() < 0.4:
        sc["mesh"]["xdmf"] = True


def own_ids(sc, r):
    """sometimes the user gives the ids of the traps (no condition or source on a trap: those go by position)"""
    if sc["traps"] and r.random() < 0.3 and not any(str(x["field"]).isdigit() and str(x["field"]) != "0" for x in sc["bcs"] + sc["sources"]):
        ids = r.permutation(len(sc["traps"]) + 3)
        for k, t in enumerate(sc["traps"]):
            t["id"] = int(ids[k]) + 1


def given(sc, r):
    """the inputs are given in different ways; sometimes functions are FEniCS objects"""
    if r.random() < 0.6:
        sc["style"] = int(r.integers(1, 16))
    if r.random() < 0.3:
        for s in sc["sources"]:
            if "value" in s and s["value"]["k"] not in ("gauss", "c") and r.random() < 0.7:
                s["value"]["user"] = True
        for t in sc["traps"]:
            d = t.get("density", [])
            for f in (d if isinstance(d, list) else [d]):
                if f["k"] not in ("gauss", "c") and r.random() < 0.5:
                    f["user"] = True
            for f in t.get("prm", {}).values():
                if r.random() < 0.5:
                    f["user"] = True


def std(pid, profile, seed, i, p, nsteps=5, p_div=None, min_factor=1e-9, mode=None, milestones=True):
    """model + stepsize control + schedule of the hydrogen solver (swarm: what is enabled varies by run)"""
    sc = S.model(profile, pid, seed, i, p)
    q = S.rng(seed, pid, i, p % 1000, "units")  # the same for the runs of one case
    if q.random() < 0.35:
        sc = U.rescale(sc, U.draw(q, sc))
    r = S.rng(seed, pid, i, p, "std")
    env(sc, r)
    own_ids(sc, S.rng(seed, pid, i, p, "ids"))
    given(sc, S.rng(seed, pid, i, p, "given"))
    if not sc["settings"]["transient"]:
        sc["dt"], sc["schedule"] = None, {}
        return sc, r
    tf = sc["settings"]["final_time"]
    sc["dt"] = S.make_dt(r, tf, nsteps=nsteps, mode=mode)
    if p_div is None:
        p_div = float(r.choice([0.0, 0.12, 0.12, 0.3]))
    if sc["dt"]["ratio"] is None:
        p_div = 0.0
    else:
        sc["dt"]["min"] = sc["dt"]["initial"] * min_factor
    g = ["keep", "scale", "noise", "nan", "zero"]
    k = int(r.integers(1, 6))
    g = [g[int(q)] for q in r.permutation(5)[:k]]
    sc["schedule"] = {"H": S.make_schedule(r, p_div=p_div, p_it=float(r.choice([0.0, 0.3, 0.6])), garbage=g)}
    settle(sc)
    if milestones and r.random() < 0.4:
        sc["dt"]["milestones"] = S.make_milestones(r, tf, n=int(r.integers(0, 3)))
    affordable(sc)
    return sc, r


def long_failure(sc, r):
    """the solver fails many times in a row: steps that are tiny compared with the time"""
    if not sc["dt"] or sc["dt"]["ratio"] is None or r.random() > 0.12:
        return
    sc["dt"].update(ratio=float(r.uniform(2.5, 5)), milestones=None)
    k, n = int(r.integers(2, 5)), int(np.ceil(np.log(10 ** r.uniform(6.0, 7.5)) / np.log(sc["dt"]["ratio"])))
    H = {str(j): v for j, v in ((int(j), v) for j, v in sc["schedule"]["H"].items()) if j < k}
    H.update({str(k + j): ["div", str(r.choice(["keep", "scale", "nan"])), int(r.integers(0, 31))] for j in range(n)})
    sc["schedule"]["H"] = H
    affordable(sc)


def affordable(sc, cap=140):
    """keeps real-solver runs short, sets the budget of solver calls from the control law"""
    if O.predict(sc, cap)[1] == "long" and sc["dt"]["ratio"] is not None:
        sc["dt"]["ratio"] = max(sc["dt"]["ratio"], 1.6)
    if O.predict(sc, cap)[1] == "long":
        sc["dt"]["milestones"] = None
        for e in sc.get("exports", []):
            e.pop("times", None)
    n = O.predict(sc, 2000)[0]
    sc["budget"] = 3 * (n + 30) * (2 + len(sc["traps"]))


def settle(sc, n=24):
    """after n calls the solver reports few iterations, so that the run is known to end"""
    H = sc["schedule"]["H"]
    for k in range(n):
        H.setdefault(str(k), ["real"])
    sc["schedule"]["default"] = {"H": ["it", 2]}


def exports(sc, pid, seed, i, p, dq=1, txt=1, xdmf=1, times=True, cond=False):
    St, P = S.Strat(seed, pid + "x", i), S.rng(seed, pid, i, p, "exports")
    tf = sc["settings"]["final_time"]
    out = []
    for k in range(dq):
        out.append(X.make_dq(St, P, sc, "dq%d" % k))
    if sc["mesh"]["kind"] != "2d":
        for k in range(txt):
            ts = None
            if times and tf is not None and St.pick("txttimes%d" % k, [True, True, False]):
                ts = [float(v) for v in P.uniform(0.05, 1.0, int(P.integers(1, 4))) * tf]
                if P.random() < 0.3:
                    ts.append(float(tf))
                if P.random() < 0.15:
                    ts.append(float(tf * 1.5))
            out.append(X.make_txt(St, P, sc, "tx%d" % k, ts))
    for k in range(xdmf):
        out.append(X.make_xdmf(St, P, sc, "xd%d" % k))
    perm = P.permutation(len(out))
    sc["exports"] = [out[int(k)] for k in perm]
    if sc["settings"]["transient"]:
        affordable(sc)
    return sc["exports"]


# ---------------------------------------------------------------- C01-C03: the stepsize control
TINY = {"geoms": ["1d1"], "chem": [False], "soret": [False], "temps": ["c", "tlin"], "ntraps": [0, 0, 1], "trapkinds": ["trap", "extrinsic"],
        "hbc": ["dir", "flux", "none"], "trapbc": [False], "sources": [0, 1], "decay": [False], "uj": [True]}


def control(pid, seed, i, p):
    """a schedule of (iterations, failure) for the stubbed solver, and a stepsize configuration"""
    sc = S.model(TINY, "ctl", seed, i % 5, 0)
    sc["mesh"]["vertices"] = [0.0, 0.5, 1.0]
    for attempt in range(60):
        r = S.rng(seed, pid, i, p, "control", attempt)
        u = lambda a, b: float(r.uniform(a, b))
        tf = float(10 ** u(-10, 12)) if r.random() < 0.7 else float(r.choice([1.0, 10.0, 1e3, 86400.0]))
        nst = 10 ** u(0, 1.8)
        d = {"initial": tf / nst, "ratio": None, "max": None, "min": None, "milestones": None}
        if r.random() < 0.12:
            d["initial"] = tf * u(1.0, 50)
        elif r.random() < 0.15:
            d["initial"] = tf / int(r.integers(1, 30))
        hit = False
        if r.random() < 0.85:
            d["ratio"] = float(r.choice([1.0, 1.01, 1.1, 1.2, 1.5, 2.0, 3.0, 10.0])) if r.random() < 0.5 else u(1.01, 4)
            m = r.random()
            d["min"] = None if m < 0.12 else d["initial"] * 10 ** u(-8, 0) if m < 0.8 else d["initial"] * u(0.9, 1.0)
            if m >= 0.88:  # a stepsize that failures lead to exactly
                d["min"] = d["initial"]
                for _ in range(int(r.integers(0, 4))):
                    d["min"] = d["min"] / d["ratio"]
            m = r.random()
            if m < 0.3:
                d["max"] = d["initial"] * 10 ** u(-0.5, 1)
            elif m < 0.55:
                d["max"] = {"t0": tf * u(0.05, 0.95), "a": None if r.random() < 0.5 else d["initial"] * u(0.5, 5), "b": d["initial"] * 10 ** u(-0.7, 1)}
                if d["max"]["a"] is None and r.random() < 0.5:
                    d["old"] = True
                hit = r.random() < 0.4  # a step ends exactly when the maximum changes
        elif r.random() < 0.3:
            d["plain"] = True
        if not d.get("plain"):
            d["milestones"] = S.make_milestones(r, tf, n=int(r.integers(0, 9)))
            if d["milestones"] and r.random() < 0.2:  # on multiples of the stepsize
                d["milestones"] += [float(d["initial"] * k) for k in r.integers(1, 6, 2)]
            if hit:
                d["milestones"] = (d["milestones"] or []) + [d["max"]["t0"]]
            if d["milestones"] and r.random() < 0.5:
                d["milestones"] = S.shuffled(d["milestones"], r)
        sc["settings"]["final_time"] = tf
        sc["dt"] = d
        # phases of the solver's mood
        H, n = {}, 0
        pdv = float(r.choice([0.0, 0.02, 0.1])) if d["ratio"] is not None else float(r.choice([0.0, 0.0, 0.01]))
        if d["ratio"] == 1.0:
            pdv = 0.0
        for _ in range(int(r.integers(0, 8))):
            mood = r.choice(["fast", "slow", "mixed", "fail"])
            for _ in range(int(r.integers(1, 16))):
                x = r.random()
                if x < pdv or (mood == "fail" and x < 0.5 and pdv > 0):
                    H[str(n)] = ["fakediv", int(r.integers(0, 31))]
                elif mood == "fast":
                    H[str(n)] = ["fake", int(r.integers(0, 5))]
                elif mood == "slow":
                    H[str(n)] = ["fake", int(r.integers(5, 12))]
                else:
                    H[str(n)] = ["fake", int(r.choice([1, 4, 4, 5, 5, 6]))]
                n += 1
        sc["schedule"] = {"H": H, "default": {"H": ["fake", int(r.integers(1, 5))], "E": ["fake", 1], "T": ["fake", 1]}}
        sc["exports"] = []
        for k in range(int(r.choice([0, 0, 1, 2]))):
            ts = [float(v) for v in tf * r.uniform(0.01, 1.1, int(r.integers(1, 4)))]
            if r.random() < 0.2 and d["milestones"]:
                ts.append(float(d["milestones"][0]))
            sc["exports"].append({"kind": "txt", "field": "solute", "file": "t%d.txt" % k, "times": ts})
        if r.random() < 0.35:
            near_miss(sc, r)
        # milestones nearer than festim's time tolerance to each other or to the end are one time
        nz, how = O.predict(sc, cap=600)
        if how in ("long", "tiny") or close_times(sc):
            continue
        sc["budget"] = (nz + 10) * 3 + 60
        if r.random() < 0.5:
            sc["clock"] = {"kind": str(r.choice(CLOCKS)), "seed": int(r.integers(1 << 30))}
        if r.random() < 0.15:
            sc["log_level"] = int(r.choice([20, 30, 50]))
        return sc
    raise AssertionError("no control case")


def near_miss(sc, r):
    """the end, a milestone or a text-export time just before or just after where a step would end anyway"""
    ts = []
    O.predict(sc, 1200, ts)
    if not ts:
        return
    t = ts[int(r.integers(0, len(ts)))]
    t = float(t * (1 + float(r.choice([-1.0, 1.0])) * 10 ** float(r.uniform(-4.5, -1.5))))
    m = r.random()
    if m < 0.6:
        sc["settings"]["final_time"] = t
    elif m < 0.8 and not sc["dt"].get("plain"):
        sc["dt"]["milestones"] = (sc["dt"]["milestones"] or []) + [t]
    else:
        sc["exports"].append({"kind": "txt", "field": "solute", "file": "tn.txt", "times": [t]})


def close_times(sc):
    """requested times too near each other for their number of steps to be defined"""
    tf = sc["settings"]["final_time"]
    ts = sorted({t for t in O.milestones(sc) + [tf] if 0 < t <= tf * 1.0001})
    return any(a != b and abs(a - b) < 2.2e-5 * b for a, b in zip(ts, ts[1:]))


def control_case(pid, seed, i, p):
    if i % 6 == 5:  # the real solver, a real problem
        sc, r = std(pid, {"geoms": ["1d1", "1d2", "cyl1"]}, seed, i, p, nsteps=10, min_factor=10 ** float(S.rng(seed, pid, i, p, "mf").uniform(-3, -0.3)))
        sc["dt"]["milestones"] = S.make_milestones(r, sc["settings"]["final_time"])
        if close_times(sc):
            sc["dt"]["milestones"] = None
        affordable(sc, 120)
        return case(pid, "run", sc=sc)
    return case(pid, "run", sc=control(pid, seed, i, p))


@family("C01", (32, 40), (320, 120), ["outcome", "times", "failures"])
def c01(seed, i, p):
    return control_case("C01", seed, i, p)


@family("C02", (32, 40), (320, 120), ["outcome", "milestones"])
def c02(seed, i, p):
    return control_case("C02", seed, i, p)


@family("C03", (32, 40), (320, 120), ["outcome", "stepsize"])
def c03(seed, i, p):
    return control_case("C03", seed, i, p)


# ---------------------------------------------------------------- C04
@family("C04", (80, 4), (400, 6), ["outcome", "temperature", "imposed", "residual"])
def c04(seed, i, p):
    sc, r = std("C04", {"cond": True}, seed, i, p, nsteps=5, p_div=0.0, mode="adaptive")
    H = sc["schedule"]["H"]
    for _ in range(int(r.integers(1, 4))):  # a few failures, single or in a row
        n = int(r.integers(0, 7))
        for k in range(int(r.choice([1, 1, 2, 3]))):
            H[str(n + k)] = ["div", str(r.choice(["keep", "scale", "noise", "nan", "zero"])), int(r.integers(0, 31))]
    sc["exports"] = exports(sc, "C04", seed, i, p, times=False)
    return case("C04", "twin", sc=sc)


# ---------------------------------------------------------------- C05-C10: the physics of every accepted step
@family("C05", (128, 4), (480, 8), ["outcome", "balance", "closed"])
def c05(seed, i, p):
    prof = {"hbc": ["none", "flux", "recomb", "dissoc", "mass", "custom_flux", "sk", "two"], "trapbc": [False],
            "ntraps": [0, 1, 2, 3], "geoms": S.GEOMS}
    if i % 3 == 2:  # closed system
        prof.update(hbc=["none"], sources=[0], decay=[False], chem=[True, True, False], geoms=[g for g in S.GEOMS if "sph" not in g],
                    ntraps=[1, 2, 0, 3])
    sc, r = std("C05", prof, seed, i, p, nsteps=6)
    return case("C05", "run", sc=sc)


@family("C06", (128, 4), (480, 8), ["outcome", "imposed", "residual_boundary", "temperature"])
def c06(seed, i, p):
    sc, r = std("C06", {"hbc": S.H_OPEN[1:] + S.H_FLUX, "trapbc": [False, True], "chem": [False, True, False], "sources": [0, 1], "ntraps": [0, 1, 1, 2],
                        "transient": [True, True, True, True, False]}, seed, i, p, nsteps=5)
    return case("C06", "run", sc=sc)


@family("C07", (144, 4), (480, 8), ["outcome", "start", "residual", "exported_fields"])
def c07(seed, i, p):
    sc, r = std("C07", {"transient": [True, True, True, False], "sources": [0, 1, 2, 3], "decay": [False, True]}, seed, i, p, nsteps=5)
    return case("C07", "run", sc=sc)


@family("C08", (128, 4), (480, 8), ["outcome", "start", "residual_traps"])
def c08(seed, i, p):
    sc, r = std("C08", {"ntraps": [1, 2, 3, 4], "trapkinds": ["trap", "neutron", "extrinsic", "trap"], "chem": [False, False, False, True],
                        "hbc": ["dir", "none", "flux", "recomb", "sieverts"]}, seed, i, p, nsteps=5)
    return case("C08", "run", sc=sc)


@family("C09", (128, 4), (480, 8), ["outcome", "start", "potential", "imposed_H", "balance", "closed", "residual"])
def c09(seed, i, p):
    prof = {"chem": [True], "geoms": ["1d2", "1d3", "1dlist", "cyl2", "sph2", "2d2", "2dcyl", "1d1"], "ntraps": [0, 0, 1, 2]}
    if i % 4 == 3:
        prof.update(hbc=["none"], sources=[0], decay=[False], geoms=["1d2", "1d3", "1dlist", "cyl2", "2d2"], trapbc=[False])
    sc, r = std("C09", prof, seed, i, p, nsteps=5)
    return case("C09", "run", sc=sc)


@family("C10", (128, 4), (480, 8), ["outcome", "start", "temperature", "exported_T", "imposed", "residual"])
def c10(seed, i, p):
    sc, r = std("C10", {"temps": ["heat_t", "heat_t", "heat_s", "lin", "xdmf", "heat_t", "step", "osc"], "ntraps": [0, 1, 0], "sources": [0, 1],
                        "hbc": ["dir", "none", "recomb", "sieverts", "flux"], "transient": [True] * 5 + [False]}, seed, i, p, nsteps=6)
    return case("C10", "run", sc=sc)


# ---------------------------------------------------------------- C11-C13: exports
def stop_somewhere(sc, r):
    """sometimes the run is cut short by a failing solver"""
    if sc["settings"]["transient"] and r.random() < 0.25:
        n = int(r.integers(1, 9))
        sc["schedule"]["H"][str(n)] = ["raise", "nan"] if r.random() < 0.5 else ["kill"]


def stale_files(sc, r):
    """sometimes an earlier run left files of the same names"""
    if r.random() < 0.3:
        if not sc["settings"]["transient"]:
            sc["stale"] = {"schedule": {}}
            return
        tf = sc["settings"]["final_time"]
        s = {"dt": {"initial": tf / float(r.uniform(1.5, 4)), "ratio": None, "max": None, "min": None, "milestones": None}, "schedule": {"default": {"H": ["it", 2]}}}
        if r.random() < 0.4:
            s["schedule"]["H"] = {str(int(r.integers(1, 4))): ["raise", "nan"]}
        sc["stale"] = s


def steps_of(i, p, n):
    """now and then a longer run"""
    return 45 if (i + p) % 16 == 3 else n


@family("C11", (96, 4), (480, 8), ["outcome", "dq"])
def c11(seed, i, p):
    sc, r = std("C11", {"cond": True, "transient": [True] * 7 + [False]}, seed, i, p, nsteps=steps_of(i, p, 6))
    stop_somewhere(sc, r)
    long_failure(sc, S.rng(seed, "C11", i, p, "long"))
    sc["exports"] = exports(sc, "C11", seed, i, p, dq=2 + (i % 2), txt=0, xdmf=i % 2)
    stale_files(sc, r)
    return case("C11", "run", sc=sc)


@family("C12", (96, 4), (480, 10), ["outcome", "txt"])
def c12(seed, i, p):
    sc, r = std("C12", {"geoms": ["1d1", "1d2", "1d3", "1dlist", "cyl1", "cyl2", "sph1", "sph2"], "transient": [True] * 7 + [False]}, seed, i, p, nsteps=steps_of(i, p, 7))
    stop_somewhere(sc, r)
    sc["exports"] = exports(sc, "C12", seed, i, p, dq=0, txt=4, xdmf=0)
    if sc["settings"]["transient"] and close_times(sc):
        for e in sc["exports"]:
            e.pop("times", None)
    stale_files(sc, r)
    return case("C12", "run", sc=sc)


@family("C13", (96, 4), (480, 8), ["outcome", "xdmf"])
def c13(seed, i, p):
    sc, r = std("C13", {"ntraps": [1, 2, 0, 3], "transient": [True] * 7 + [False]}, seed, i, p, nsteps=steps_of(i, p, 6))
    stop_somewhere(sc, r)
    long_failure(sc, S.rng(seed, "C13", i, p, "long"))
    sc["exports"] = exports(sc, "C13", seed, i, p, dq=i % 2, txt=i % 2, xdmf=4, times=False)
    stale_files(sc, r)
    return case("C13", "run", sc=sc)


# ---------------------------------------------------------------- C14
def mixed(L, A, parts):
    """L with some parts taken from A (same structure)"""
    m = {"mesh": ["mesh"], "materials": ["mats"], "sources": ["sources"], "boundary_conditions": ["bcs"], "traps": ["traps"], "settings": ["settings"],
         "temperature": ["temp", "tkind"], "initial_conditions": ["ics"], "dt": ["dt", "schedule"], "exports": ["exports"]}
    sc = dict(L)
    for p in parts:
        for k in m[p]:
            if k in A:
                sc[k] = A[k]
    return sc


def whole(parts):
    """a consistent set of parts to replace together"""
    parts = set(parts)
    if "mesh" in parts:  # a temperature file belongs to a mesh
        parts |= {"temperature"}
    if "traps" in parts:
        parts |= {"exports"}
    return sorted(parts)


def c14_sc(seed, i, p, q, other=None):
    prof = {"cond": True, "transient": [True] * 5 + [False]}
    j, fam = (i, "C14") if other is None else (other, "C14")
    sc, r = std(fam, prof, seed, j, 1000 * q + p, nsteps=4)
    sc["exports"] = exports(sc, fam, seed, j, 1000 * q + p, dq=1, txt=1, xdmf=2)
    sc["probe_pos"] = int(r.integers(0, 5))
    for t in sc["traps"]:  # materials, traps and conditions may come from different stages
        t["ref"] = "name"
        t.pop("id", None)
    own_ids(sc, S.rng(seed, fam, j, "ids"))
    return sc, r


def fit(sc):
    """stepsize and schedule usable with the settings of the scenario"""
    if not sc["settings"]["transient"]:
        sc["dt"], sc["schedule"] = None, {}
        return sc
    sc["dt"], sc["schedule"] = dict(sc["dt"]), {k: dict(v) for k, v in sc["schedule"].items()}
    sc["exports"] = [dict(e) for e in sc["exports"]]
    affordable(sc)
    return sc


def tw_temp(sc, r):
    """an earlier stage with another kind of temperature"""
    tf = sc["settings"]["final_time"] or 1.0
    tr = sc["settings"]["transient"]
    kinds = [k for k in ["c", "c", "tlin", "osc", "xlin", "lin", "xdmf", "heat_t", "heat_s"] if k != sc["tkind"] and (tr or k != "heat_t")]
    k = str(r.choice(kinds))
    parts = {"temperature"}
    if sc["temp"]["kind"] == "heat":
        sc["bcs"] = [b for b in sc["bcs"] if b["field"] != "T"]
        sc["sources"] = [s for s in sc["sources"] if s["field"] != "T"]
        parts |= {"boundary_conditions", "sources"}
    sc["temp"], sc["tkind"] = S.make_temp(k, None, r, tf / U.of(sc, "time"), 0.0), k
    if "units" in sc:
        U.temp(sc, sc["units"])
    if sc["temp"]["kind"] == "heat":
        sc["bcs"] = sc["bcs"] + [{"field": "T", "kind": "dir", "surfaces": [1], "value": {"k": "tlin", "a": float(r.uniform(330, 500)), "c": float(r.uniform(20, 150)) / tf}}]
        parts |= {"boundary_conditions"}
    return parts


def tw_settings(sc, r):
    """an earlier stage with other settings"""
    s = sc["settings"] = dict(sc["settings"])
    opts = ["uj", "chem"]
    if not any(str(b["field"]) not in ("0", "T") for b in sc["bcs"]):
        opts.append("el")
    if not s["chemical_pot"]:
        opts.append("soret")
    o = str(r.choice(opts))
    parts = {"settings"}
    if o == "uj":
        s["update_jacobian"] = not s["update_jacobian"]
    elif o == "el":
        s["traps_el"] = "DG" if s["traps_el"] == "CG" else "CG"
    elif o == "chem":
        s["chemical_pot"] = not s["chemical_pot"]
        if s["chemical_pot"]:
            s["soret"] = False
            if "S_0" not in sc["mats"][0]:
                sc["mats"] = [dict(m, S_0=float(r.uniform(0.5, 2.5)), E_S=float(r.uniform(-0.05, 0.05)), law="sievert") for m in sc["mats"]]
                parts.add("materials")
    else:
        s["soret"] = not s["soret"]
        if s["soret"] and "Q" not in sc["mats"][0]:
            sc["mats"] = [dict(m, Q=[float(r.uniform(0.02, 0.1)), 0.0]) for m in sc["mats"]]
            parts.add("materials")
    return parts


def tw_traps(sc, r):
    """an earlier stage with the same trap objects, fewer or in another order"""
    n = len(sc["traps"])
    if not n:
        return set()
    perm = [int(k) for k in r.permutation(n)][:int(r.integers(0, n + 1))]
    if perm == list(range(n)):
        perm = perm[1:]
    new = {str(k + 1): j + 1 for j, k in enumerate(perm)}

    def moved(x):
        f = str(x["field"])
        if not f.isdigit() or f == "0":
            return x
        return dict(x, field=type(x["field"])(new[f])) if f in new else None

    keep = lambda lst: [y for y in (moved(x) for x in lst) if y is not None]
    sc["traps"] = [sc["traps"][k] for k in perm]
    sc["trapperm"] = perm
    for k in ("bcs", "sources", "ics"):
        sc[k] = keep(sc[k])
    ex = []
    for e in sc["exports"]:
        if "trap" in e:
            if e["trap"] in perm:
                ex.append(dict(e, trap=perm.index(e["trap"])))
        elif e["kind"] == "dq":
            q = keep(e["q"])
            if q:
                ex.append(dict(e, q=q))
        elif moved(e) is not None:
            ex.append(moved(e))
    sc["exports"] = ex
    return {"traps", "boundary_conditions", "sources", "initial_conditions", "exports"}


def tw_time(sc, r):
    """an earlier transient stage of a steady problem, or a steady one of a transient problem"""
    s = sc["settings"] = dict(sc["settings"])
    if not s["transient"]:
        s["transient"], s["final_time"] = True, float(r.uniform(0.8, 2.5)) * U.of(sc, "time")
        sc["dt"], sc["schedule"] = S.make_dt(r, s["final_time"], nsteps=4), {"H": S.make_schedule(r)}
        settle(sc)
    elif sc["tkind"] != "heat_t" and all("prm" not in t for t in sc["traps"]) and any(b["kind"] == "dir" and str(b["field"]) == "0" for b in sc["bcs"]):
        s["transient"], s["final_time"] = False, None
        sc["exports"] = [{k: v for k, v in e.items() if k != "times"} for e in sc["exports"]]
        return {"settings", "dt", "exports"}
    else:
        return set()
    return {"settings", "dt"}


TWISTS = {"time": tw_time, "temp": tw_temp, "settings": tw_settings, "traps": tw_traps}
ALLPARTS = ["mesh", "materials", "sources", "boundary_conditions", "traps", "settings", "temperature", "initial_conditions", "dt", "exports"]


@family("C14", (64, 4), (400, 6), [])
def c14(seed, i, p):
    r = S.rng(seed, "C14", i, p, "hist")
    L, _ = c14_sc(seed, i, p, 0)
    trans = L["settings"]["transient"]
    n = int(r.choice([1, 1, 2, 3]))
    scs = []
    for k in range(n):
        if r.random() < 0.15:
            o = int(r.integers(0, 64))
            A, _ = c14_sc(seed, i, p, k + 1, other=o)
            scs.append((fit(A), ALLPARTS))
            continue
        A, _ = c14_sc(seed, i, p, k + 1)
        m = r.random()
        if m < 0.3:
            parts = []
        elif m < 0.5:
            parts = ALLPARTS
        else:
            parts = [q for q in ALLPARTS if r.random() < 0.3]
        A = mixed(L, A, whole(parts))
        for tw in ("traps", "settings", "temp", "time"):
            if r.random() < (0.25 if tw != "time" or trans else 0.6) and not (tw == "traps" and "traps" in whole(parts)):
                parts = whole(set(parts) | TWISTS[tw](A, r))
        scs.append((fit(A), whole(parts)))
    stages = []
    have = None
    for k in range(n + 1):
        sc, parts = scs[k] if k < n else (fit(dict(L)), [])
        rep = [] if have is None else whole(set(have) | set(parts) | {q for q in ("dt", "exports") if sc[q] != stages[-1]["sc"][q]})
        s = {"sc": sc, "do": "run", "replace": rep}
        if "settings" in rep and not trans:
            s["replace"] = whole(set(rep) | {"dt"})
        if r.random() < 0.4:
            s["inplace"] = True
        if r.random() < 0.4:  # the condition, source and export objects are kept and edited
            s["edit"] = True
        if r.random() < 0.2:
            s["inits"] = 2
        if k < n:
            m = r.random()
            if m < 0.1:
                s["do"] = "init"
            elif m < 0.65:
                sc = s["sc"] = dict(sc, schedule={a: dict(b) for a, b in (sc["schedule"] or {}).items()})
                s["do"] = "abort"
                w = r.random()
                if w < 0.25:
                    s["abort_step"] = int(r.integers(1, 6))
                elif w < 0.45:
                    s["io"] = int(r.integers(0, 12))
                else:
                    role = "T" if sc["temp"]["kind"] == "heat" and r.random() < 0.4 else "E" if any("prm" in t for t in sc["traps"]) and r.random() < 0.4 else "H"
                    sc["schedule"].setdefault(role, {})[str(int(r.integers(0, 6)))] = \
                        ["raise", str(r.choice(["keep", "nan", "zero", "noise"]))] if r.random() < 0.6 else ["kill", str(r.choice(["keep", "nan", "noise"]))]
        have = parts
        stages.append(s)
    return case("C14", "history", stages=stages)


# ---------------------------------------------------------------- C17
@family("C17", (120, 4), (480, 8), ["outcome", "failures", "temperature", "imposed", "residual"])
def c17(seed, i, p):
    g = i % 6
    prof = {"ntraps": [0, 1, 1, 2], "sources": [0, 1]}
    if g == 2:
        prof.update(temps=["heat_t", "heat_t", "heat_s"])
    elif g == 3:
        prof.update(ntraps=[1, 2], trapkinds=["neutron", "extrinsic"])
    elif g == 4:
        prof.update(transient=[False], temps=["c", "xlin", "heat_s", "xdmf"])
    elif g == 5:
        prof.update(ntraps=[1, 1, 2], temps=["c", "lin", "heat_t"], hbc=["recomb", "dir", "sieverts", "flux"])
    mf = 10 ** -float(S.rng(seed, "C17", i, p, "mf").uniform(0.1, 2.5))
    sc, r = std("C17", prof, seed, i, p, nsteps=5, p_div=0.4 if g == 0 else 0.1, min_factor=mf, mode="fixed" if g == 1 else None)
    if sc["dt"] and sc["dt"]["ratio"] is not None:
        if r.random() < 0.15:
            sc["dt"]["min"] = None
        sc["dt"]["ratio"] = max(sc["dt"]["ratio"], 1.25)
    bad = lambda: ["div", str(r.choice(["keep", "nan", "zero", "noise", "scale"])), int(r.integers(0, 31))] if r.random() < 0.6 else \
        ["raise", str(r.choice(["keep", "nan", "zero"]))]
    sched = sc["schedule"]
    if g == 1 and r.random() < 0.8:
        sched["H"][str(int(r.integers(0, 6)))] = bad()
    elif g == 2 and r.random() < 0.85:
        sched.setdefault("T", {})[str(int(r.integers(0, 7 if sc["temp"]["transient"] else 2)))] = bad()
    elif g == 3 and r.random() < 0.85:
        sched.setdefault("E", {})[str(int(r.integers(0, 8)))] = bad()
    elif g == 4 and r.random() < 0.85:
        role = "T" if sc["temp"]["kind"] == "heat" and r.random() < 0.4 else "H"
        sched[role] = {"0": bad()}
    if g in (2, 3) and r.random() < 0.3:
        for d in [sc["temp"]] + sc["traps"]:
            d["max_it"] = int(r.choice([1, 2, 5]))
    if g == 5:
        w = str(r.choice(["H", "H", "T", "E"]))
        if w == "T" and sc["temp"]["kind"] == "heat":
            sc["temp"]["max_it"] = 1
        elif w == "E" and any("prm" in t for t in sc["traps"]):
            for t in sc["traps"]:
                t["max_it"] = 1
        else:
            sc["settings"]["max_it"] = int(r.choice([1, 1, 2, 3]))
            for k in list(sched["H"]):
                if r.random() < 0.7 and sched["H"][k][0] != "div":
                    sched["H"][k] = ["real"]
    if sc["dt"]:
        sc["budget"] = 3 * (O.predict(sc, 2000)[0] + 150) * (2 + len(sc["traps"]))
    return case("C17", "run", sc=sc)


# ---------------------------------------------------------------- C18
def c18_sc(seed, i, p, nsteps=4):
    sc, r = std("C18", {"cond": True, "transient": [True] * 9 + [False]}, seed, i, p, nsteps=nsteps)
    sc["exports"] = exports(sc, "C18", seed, i, p, dq=1, txt=1, xdmf=1)
    return sc, r


@family("C18", (64, 4), (400, 6), [])
def c18(seed, i, p):
    r = S.rng(seed, "C18", i, p, "iso")
    if i % 2 == 0:
        n = int(r.choice([2, 2, 3]))
        scs = [c18_sc(seed, i, p)[0]]
        for k in range(1, n):
            scs.append(c18_sc(seed, i if r.random() < 0.5 else (i + 2) % 64, p + 1000 * k)[0])
        if r.random() < 0.2:
            scs[1] = dict(scs[0])
        for k, s in enumerate(scs):
            if r.random() < 0.3:
                s["log_level"] = int(r.choice([20, 30, 40, 50]))
            if r.random() < 0.15:  # one of them fails
                if s["settings"]["transient"]:
                    s["schedule"]["H"][str(int(r.integers(1, 6)))] = ["raise", "nan"]
        m = r.random()
        if m < 0.5:
            turns = [int(v) for v in r.integers(0, n, 160)]
        elif m < 0.8:
            turns = [k % n for k in range(160)]
        else:
            turns = []
            while len(turns) < 160:
                turns += [int(r.integers(0, n))] * int(r.integers(1, 12))
        return case("C18", "interleave", scs=scs, turns=turns, solo_first=bool(r.random() < 0.5))
    sc, q = c18_sc(seed, i, p)
    names = ["clock", "log", "before", "fewer", "reverse", "reuse", "clock"] + (["hash"] if p == 0 else [])
    v = names[int(r.integers(0, len(names)))] if i % 8 != 7 or p else "hash"
    if v == "clock":
        sc.pop("clock", None)
        d = {"name": "clock", "set": {"clock": {"kind": str(r.choice(CLOCKS)), "seed": int(r.integers(1 << 30))}}}
    elif v == "log":
        d = {"name": "log level", "set": {"log_level": int(r.choice([10, 20, 30, 50]))}}
    elif v == "before":
        b = c18_sc(seed, i if r.random() < 0.6 else (i + 2) % 64, p + 1000)[0]
        if b["settings"]["transient"] and r.random() < 0.5:
            b["schedule"]["H"][str(int(r.integers(0, 5)))] = ["raise", "nan"] if r.random() < 0.5 else ["kill"]
        d = {"name": "earlier simulation", "before": [b]}
    elif v == "fewer":
        k = [j for j, e in enumerate(sc["exports"]) if not e.get("times") and r.random() < 0.7]
        d = {"name": "fewer exports", "fewer": k}
    elif v == "reverse":
        d = {"name": "order of exports", "reverse": True}
    elif v == "reuse":
        o = c18_sc(seed, i, p + 1000)[0]
        d = {"name": "objects used before", "reuse": {k: o[k] for k in ("bcs", "sources", "ics", "traps", "exports", "schedule", "dt", "settings")}}
    else:
        d = {"name": "hash seed", "hashseed": int(r.integers(1, 1 << 31))}
    return case("C18", "variant", sc=sc, variant=d)


# ---------------------------------------------------------------- C15
@family("C15", (64, 3), (400, 6), [])
def c15(seed, i, p):
    restart = i % 3 != 2
    prof = {"cond": True}
    if restart:
        prof.update(trapkinds=["trap"], hbc=[k for k in S.H_OPEN + S.H_FLUX if k != "sk"], chem=[False, False, True], chem_temps=["c", "tlin", "osc"], henry=[0])
    sc, r = std("C15", prof, seed, i, p, nsteps=6)
    for k in list(sc["schedule"]["H"]):
        if sc["schedule"]["H"][k][0] in ("raise", "kill"):
            sc["schedule"]["H"][k] = ["real"]
    St, P = S.Strat(seed, "C15x", i), S.rng(seed, "C15", i, p, "exports")
    exports(sc, "C15", seed, i, p, dq=1, txt=1, xdmf=1)
    ex = sc["exports"]
    for e in ex:
        if e["kind"] == "xdmf":  # only checkpoints are closed after each record
            e["checkpoint"] = True
        if e["kind"] == "dq" and "every" not in e and r.random() < 0.7:
            e["every"] = int(r.integers(1, 4))
    if restart:
        mode = int(r.choice([1, 1, 2, 3]))
        fields = ["solute"] + [str(k + 1) for k in range(len(sc["traps"]))] + (["T"] if sc["temp"]["kind"] == "heat" and sc["temp"]["transient"] else [])
        new = [{"kind": "xdmf", "field": f, "file": "ck_%s.xdmf" % f, "mode": mode, "checkpoint": True, "folder": bool(r.random() < 0.5), "ckpt": True} for f in fields]
        ex = sc["exports"] = S.shuffled(ex + new, r)
    sc["probe_pos"] = 0
    kills = []
    for _ in range(2):
        at = str(r.choice(["solve", "accept", "op", "op", "op"]))
        kills.append({"at": at, "frac": float(r.random()), "how": str(r.choice(["before", "after", "torn"]))})
    return case("C15", "crash", sc=sc, kills=kills, restart=restart)


# ---------------------------------------------------------------- C16
@family("C16", (64, 3), (400, 6), [])
def c16(seed, i, p):
    sc, r = std("C16", {"cond": True, "transient": [True] * 7 + [False]}, seed, i, p, nsteps=4)
    exports(sc, "C16", seed, i, p, dq=2, txt=2, xdmf=i % 2)
    for e in sc["exports"]:
        if e["kind"] == "dq" and r.random() < 0.6:
            e["every"] = int(r.integers(1, 3))
    sc["probe_pos"] = 0
    faults = []
    for _ in range(4):
        m = str(r.choice(["error", "error", "error", "torn", "short", "eintr"]))
        faults.append({"frac": float(r.random()), "mode": m, "errno": str(r.choice(["enospc", "eacces", "eio", "erofs", "edquot"]))})
    return case("C16", "io", sc=sc, faults=faults, none=bool(p == 0))
