"""Other units of length, time and concentration: the same physics at the magnitudes of real problems.

A scenario drawn with values of order one is rescaled as a whole, so that nothing but the size of its numbers
changes: nanometres or metres, microseconds or months, 1 or 1e24 atoms per volume.
"""
import copy


def fscale(f, s, L, T):
    """value times s, of lengths times L and times times T"""
    f = dict(f)
    k = f["k"]
    if k == "gauss":
        f["flux"] = fscale(f["flux"], s, L, T)
        f["d"], f["w"] = f["d"] * L, f["w"] * L
        return f
    if k == "c":
        f["v"] *= s
        return f
    f["a"] *= s
    if "c" in f:
        f["c"] *= s / T
    if "d" in f:
        f["d"] *= s / L / T
    if "y" in f:
        f["y"] *= s / L
    if "e" in f:
        f["e"] *= s / L**2
    if "b" in f:
        f["b"] *= s if k in ("step", "osc") else s / L
    if k == "step":
        f["t0"] *= T
    if k == "osc":
        f["w"] /= T
    return f


def draw(r, sc):
    """(length, time, concentration); the solver's one residual norm mixes equations and imposed values, and the
    ratio of their sizes is kept within bounds so that its tolerances mean something for both"""
    u = lambda a, b: float(10 ** r.uniform(a, b))
    L = u(-7, 2)
    return [L, L ** dim(sc) * u(-2, 2), u(0, 24)]


def dim(sc):
    return 2 if sc["mesh"]["kind"] == "2d" else 1


def rescale(sc, units):
    L, T, C = units
    sc = copy.deepcopy(sc)
    sc["units"] = list(units)
    F = lambda f, s: fscale(f, s, L, T)

    def mul(d, s, *names):
        for n in names:
            if d.get(n) is None:
                continue
            v = d[n]
            if isinstance(v, dict):
                d[n] = F(v, s)
            elif isinstance(v, list):
                d[n] = [F(x, s) if isinstance(x, dict) else x * s for x in v]
            else:
                d[n] = v * s

    mul(sc["mesh"], L, "vertices", "borders", "x0", "x1", "y1", "warp")
    for m in sc["mats"]:
        mul(m, L * L / T, "D_0", "cond")
        if m.get("law") == "henry":  # the potential then scales like the concentration
            mul(m, 1 / C, "S_0")
    for t in sc["traps"]:
        mul(t, 1 / (C * T), "k_0")
        mul(t, 1 / T, "p_0")
        mul(t, C, "density")
        q = t.get("prm")
        if q:
            if t["kind"] == "neutron":
                mul(q, 1 / T, "phi", "A_0")
                mul(q, C, "K", "n_max")
            else:
                mul(q, C / T, "phi_0")
                mul(q, C, "n_amax", "n_bmax")
                mul(q, 1.0, "eta_a", "eta_b", "f_a", "f_b")
    J, Js = C * L / T, L / T  # flux, speed
    for b in sc["bcs"]:
        k, tt = b["kind"], b["field"] == "T"
        if k == "dir":
            mul(b, 1.0 if tt else C, "value")
        elif k in ("sieverts", "henrys"):
            mul(b, C, "S_0", "H_0")
            mul(b, 1.0, "P")
        elif k == "imp":
            mul(b, J, "phi", "Kd_0")
            mul(b, L, "R_p")
            mul(b, L * L / T, "D_0")
            mul(b, L / (C * T), "Kr_0")
            mul(b, 1.0, "P")
        elif k == "custom_dir":
            mul(b, C, "p")
            mul(b, 1.0, "q", "w")
            b["add"] = 0.2 * C
        elif k == "flux":
            mul(b, Js if tt else J, "value")
        elif k == "recomb":
            mul(b, Js if b["order"] == 1 else L / (C * T), "Kr_0")
        elif k == "dissoc":
            mul(b, J, "Kd_0")
            mul(b, 1.0, "P")
        elif k == "mass":
            mul(b, Js, "h")
            mul(b, C, "ext")
        elif k == "conv":
            mul(b, Js, "h")
            mul(b, 1.0, "ext")
        elif k == "custom_flux":
            mul(b, Js if tt else J, "p")
            mul(b, 1.0, "q", "w")
            b["lin"], b["cross"] = 0.3 * Js, 0.1 / C
        elif k == "sk":
            mul(b, 1 / T, "k_sb")
            mul(b, L / T, "k_bs")
            mul(b, L, "lam")
            mul(b, C * L, "n_surf", "init")
            mul(b, C, "n_IS")
            mul(b, J, "J")
            mul(b, 1.0, "q")
        else:
            raise KeyError(k)
    for s in sc["sources"]:
        if "decay" in s:
            s["decay"] /= T
        elif s["value"]["k"] == "gauss":
            s["value"] = F(s["value"], J)
        else:
            s["value"] = F(s["value"], 1 / T if s["field"] == "T" else C / T)
    for i in sc["ics"]:
        i["value"] = F(i["value"], C)
    temp(sc, units)
    if sc["settings"]["final_time"] is not None:
        sc["settings"]["final_time"] *= T
    sc["settings"]["atol"] = 1e-10 * size(sc)
    sc["settings"]["rtol"] = 1e-10 * min(1.0, L ** dim(sc) / T)
    return sc


def temp(sc, units):
    t = sc["temp"] = dict(sc["temp"])
    for k in ("f", "ic"):
        if k in t:
            t[k] = fscale(t[k], 1.0, units[0], units[1])


def size(sc, what="H"):
    """unit of the residual of an equation: hydrogen or heat"""
    if "units" not in sc:
        return 1.0
    L, T, C = sc["units"]
    return L ** dim(sc) / T * (C if what == "H" else 1.0)


def of(sc, what):
    L, T, C = sc.get("units", (1.0, 1.0, 1.0))
    return {"length": L, "time": T, "conc": C}[what]
