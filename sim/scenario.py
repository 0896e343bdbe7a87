"""Scenario generator: a model (as JSON data), its stepsize control and its schedule, from seeds.

A *structure* fixes everything discrete (geometry, physics, kinds of conditions); parameters are drawn
for each run.  Discrete factors are stratified over the structure index, so that every option occurs.
"""
import zlib

import numpy as np

from . import fn

NZ = 6


def rng(*key):
    return np.random.Generator(np.random.PCG64([zlib.crc32(repr(k).encode()) for k in key]))


class Strat:
    """Balanced choice of the options of each factor over the structure index."""

    def __init__(self, seed, family, i):
        self.seed, self.family, self.i = seed, family, i
        self.n = {}

    def pick(self, name, options):
        options = list(options)
        k = self.n.get(name, 0)
        self.n[name] = k + 1
        n = len(options)
        if n == 1:
            return options[0]
        j = self.i * 7 + k if k else self.i
        r = rng(self.seed, self.family, name, k, j // n)
        return options[int(r.permutation(n)[j % n])]

    def coin(self, name, p=0.5):
        k = max(2, int(round(1 / min(p, 1 - p))))
        return self.pick(name, ([True] + [False] * (k - 1)) if p < 0.5 else ([False] + [True] * (k - 1)))


GEOMS = ["1d1", "1d2", "1d3", "1dlist", "cyl1", "cyl2", "sph1", "sph2", "2d1", "2d2", "2dcyl"]
NMAT = {"1d1": 1, "1d2": 2, "1d3": 3, "1dlist": 2, "cyl1": 1, "cyl2": 2, "sph1": 1, "sph2": 2,
        "2d1": 1, "2d2": 2, "2dcyl": 2}


def mtype(geom):
    return "cylindrical" if "cyl" in geom else "spherical" if "sph" in geom else "cartesian"


def make_mesh(geom, P):
    """mesh data: vertices are not evenly spaced."""
    if geom.startswith("2d"):
        x0 = 1.0 if geom == "2dcyl" else 0.0
        return {"kind": "2d", "x0": x0, "x1": x0 + 1.0, "y1": float(P.uniform(0.6, 1.2)), "nx": 4, "ny": 2,
                "type": mtype(geom), "warp": float(P.uniform(0.0, 0.15))}
    x0 = 1.0 if mtype(geom) != "cartesian" else 0.0
    nb = NMAT[geom] if geom != "1dlist" else 3
    ncell = NZ if nb < 3 else 7
    borders = {1: [0, 1.0], 2: [0, 0.4, 1.0], 3: [0, 0.3, 0.7, 1.0]}[nb]
    # cells shared out, jittered inside each block
    vs = [x0 + borders[0]]
    counts = {1: [ncell], 2: [3, 4], 3: [2, 3, 2]}[nb]
    for b in range(nb):
        a, z, n = x0 + borders[b], x0 + borders[b + 1], counts[b]
        w = P.uniform(0.6, 1.4, n)
        w = np.cumsum(w / w.sum())
        for k in range(n - 1):
            vs.append(float(a + (z - a) * w[k]))
        vs.append(z)
    return {"kind": "1d" if mtype(geom) == "cartesian" else "1dm", "vertices": [float(v) for v in vs],
            "borders": [x0 + b for b in borders], "type": mtype(geom)}


def make_mats(geom, S, P, opt):
    n = NMAT[geom]
    out = []
    u = lambda a, b: float(P.uniform(a, b))
    for i in range(n):
        m = {"name": "m%d" % (i + 1), "ids": [i + 1], "D_0": u(0.3, 1.5), "E_D": u(0.02, 0.08)}
        if geom == "1dlist" and i == 0:
            m["ids"] = [1, 3]
        if opt["chem"]:
            m["S_0"], m["E_S"] = u(0.5, 2.5), u(-0.05, 0.05)
            m["law"] = "henry" if (opt["henry"] and (i == opt["henry"] - 1)) else "sievert"
        if opt["soret"]:
            m["Q"] = [u(0.02, 0.1), u(1e-5, 1e-4) if opt["Qfun"] else 0.0]
        if opt["heat"]:
            f = [opt["thermfun"] != S.coin("thermmix", 0.2) for _ in range(3)]  # numbers or functions, each for itself
            m["cond"] = [u(0.5, 2), u(1e-4, 2e-3) if f[0] else 0.0]
            m["cp"] = [u(0.5, 2), u(1e-4, 1e-3) if f[1] else 0.0]
            m["rho"] = [u(0.5, 2), u(1e-4, 1e-3) if f[2] else 0.0]
        elif opt.get("cond"):
            m["cond"] = [u(0.5, 2), 0.0]
            m["cp"] = [1.0, 0.0]
            m["rho"] = [1.0, 0.0]
        out.append(m)
    return out


TEMP_UNI = ["c", "tlin", "osc", "step"]
TEMP_ANY = ["c", "tlin", "osc", "xlin", "lin", "heat_t", "heat_s", "xdmf"]


def make_temp(kind, S, P, tf, x0):
    u = lambda a, b: float(P.uniform(a, b))
    if kind == "heat_t":
        ic = {"k": "xlin", "a": u(320, 450), "b": u(-80, 80)}
        return {"kind": "heat", "transient": True, "ic": ic}
    if kind == "heat_s":
        return {"kind": "heat", "transient": False}
    if kind == "c":
        return {"kind": "fn", "f": fn.const(u(350, 650))}
    if kind == "tlin":
        return {"kind": "fn", "f": {"k": "tlin", "a": u(320, 450), "c": u(40, 250) / tf}}
    if kind == "osc":
        return {"kind": "fn", "f": {"k": "osc", "a": u(430, 550), "b": u(40, 120), "w": u(2, 9) / tf}}
    if kind == "step":
        return {"kind": "fn", "f": {"k": "step", "a": u(330, 450), "b": u(460, 650), "t0": u(0.2, 0.8) * tf}}
    if kind == "xlin":
        return {"kind": "fn", "f": {"k": "xlin", "a": u(330, 450), "b": u(40, 120)}}
    if kind == "lin":
        return {"kind": "fn", "f": {"k": "lin", "a": u(320, 420), "b": u(20, 90), "c": u(30, 120) / tf, "d": u(5, 30) / tf}}
    if kind == "xdmf":
        return {"kind": "xdmf", "f": {"k": "xlin", "a": u(330, 450), "b": u(40, 120)}}
    raise ValueError(kind)


H_OPEN = ["none", "dir", "sieverts", "henrys", "imp", "custom_dir"]
H_FLUX = ["none", "flux", "recomb", "dissoc", "mass", "custom_flux", "sk", "two"]


def make_hbc(kind, surfaces, S, P, dr, tf):
    """list of conditions"""
    u = lambda a, b: float(P.uniform(a, b))
    # (expressions all compile to the same form: drawn for each run)
    k3 = lambda name, sc, opts=("c", "tlin", "lin", "osc", "step"): dr.make(str(P.choice(list(opts))), sc)
    c = lambda sc: fn.const(sc * u(0.5, 1.5))
    fld = S.pick("bcfield", [0, "0"])
    b = {"field": fld, "surfaces": surfaces, "kind": kind}
    if kind == "none":
        return []
    if kind == "dir":
        b["value"] = k3("v", 1.0)
    elif kind == "sieverts":
        b.update(S_0=u(0.5, 2), E_S=u(0.01, 0.08), P=k3("v", 1.0), field=0)
    elif kind == "henrys":
        b.update(H_0=u(0.5, 2), E_H=u(0.01, 0.08), P=k3("v", 1.0), field=0)
    elif kind == "imp":
        b.update(phi=k3("v", 1.0, ("c", "tlin", "osc", "step")), R_p=k3("v", 0.3, ("c", "tlin")), D_0=u(0.5, 1.5), E_D=u(0.02, 0.06), field=0)
        m = S.pick("impmode", [0, 1, 2])
        if m >= 1:
            b.update(Kr_0=u(0.5, 2), E_Kr=u(0.02, 0.06))
        if m == 2:
            b.update(Kd_0=u(0.5, 2), E_Kd=u(0.02, 0.06), P=k3("v", 0.5, ("c", "tlin", "osc")))
    elif kind == "custom_dir":
        b.update(p=k3("v", 1.0, ("c", "tlin", "lin")), **user_prms(S, k3))
    elif kind == "flux":
        b["value"] = k3("v", 0.6)
    elif kind == "recomb":
        b.update(Kr_0=k3("v", 0.6, ("c", "tlin", "osc")), E_Kr=c(0.03), order=S.pick("order", [1, 2]), field=0)
    elif kind == "dissoc":
        b.update(Kd_0=k3("v", 0.6, ("c", "tlin")), E_Kd=c(0.03), P=k3("v", 1.0, ("c", "osc", "step")), field=0)
    elif kind == "mass":
        b.update(h=k3("v", 0.6, ("c", "tlin")), ext=k3("v", 0.5, ("c", "osc", "lin")), field=0)
    elif kind == "custom_flux":
        b.update(p=k3("v", 0.6, ("c", "tlin", "lin")), **user_prms(S, k3))
    elif kind == "sk":
        b.update(k_sb=u(0.5, 2), k_bs=u(0.2, 1), lam=u(0.05, 0.3), n_surf=u(2, 4), n_IS=u(8, 15),
                 J=k3("v", 0.5, ("c", "tlin", "osc")), init=u(0.1, 0.8), field=0)
        m = S.pick("skmode", [0, 1, 2, 2, 3])
        if m in (1, 2):
            b.update(E_sb=u(0.01, 0.06), E_bs=u(0.01, 0.06), k_sb=u(1, 4), k_bs=u(0.4, 2))
        if m == 2:  # rates depending on both concentrations and on further parameters
            b.update(full=True, a=u(0.2, 0.8), d=u(0.5, 2), q=k3("v", 1.0, ("c", "tlin", "osc")))
        elif m == 3:  # a plain number
            b.update(J=c(0.3), number=True)
    elif kind == "two":
        return (make_hbc("recomb", surfaces, S, P, dr, tf) + make_hbc("flux", surfaces, S, P, dr, tf))
    return [b]


def user_prms(S, make):
    """further parameters of a user's function"""
    return {"q": make("uq", 1.0, ("tlin", "c", "osc")), "w": make("uw", 1.0, ("osc", "tlin", "c", "lin")), "turn": S.pick("turn", [0, 1, 2])}


def make_tbc(kind, surfaces, S, P, dr, tf):
    u = lambda a, b: float(P.uniform(a, b))
    b = {"field": "T", "surfaces": surfaces, "kind": kind}
    if kind == "none":
        return []
    if kind == "dir":
        b["value"] = {"k": "tlin", "a": u(330, 500), "c": u(20, 150) / tf} if S.coin("tbct", 0.6) else fn.const(u(330, 500))
    elif kind == "custom_dir":  # 1e-3*T*p + 0.2 makes no sense for a temperature
        raise ValueError
    elif kind == "flux":
        b["value"] = dr.make(S.pick("tbcfn", ["c", "tlin", "osc"]), 60.0)
    elif kind == "conv":
        b["h"] = dr.make(S.pick("tbcfn", ["c", "tlin"]), 1.0)
        b["ext"] = {"k": "tlin", "a": u(330, 500), "c": u(20, 100) / tf}
    elif kind == "custom_flux":
        b["p"] = dr.make(S.pick("tbcfn", ["c", "tlin", "osc"]), 60.0)
        b.update(user_prms(S, lambda n, s, ks: dr.make(S.pick("t" + n, list(ks)), s)))
    return [b]


def make_trap(i, kind, mats, S, P, dr, tf, opt):
    u = lambda a, b: float(P.uniform(a, b))
    usable = [m["name"] for m in mats if m.get("law", "sievert") == "sievert"]
    if not usable:
        return None
    where = S.pick("trapmats", ["one", "all", "lists"]) if len(usable) > 1 else "one"
    dfun = lambda: dr.make(S.pick("densfn", ["c", "lin", "tlin", "osc", "step", "xlin"]), 1.0)
    tr = {"kind": kind, "ref": str(P.choice(["name", "name", "object"]))}
    one = lambda: (u(0.5, 2), u(0.01, 0.06), u(0.5, 2), u(0.02, 0.08))
    if where == "lists" and kind == "trap":
        names = list(usable)
        if S.coin("traprev", 0.5):
            names = names[::-1]
        vals = [one() for _ in names]
        tr.update(mats=names, lists=True, k_0=[v[0] for v in vals], E_k=[v[1] for v in vals],
                  p_0=[v[2] for v in vals], E_p=[v[3] for v in vals], density=[dfun() for _ in names])
        return tr
    if where == "one":
        names = [S.pick("trapin", usable)] if len(usable) > 1 else usable
    else:
        names = list(usable)
    k0, Ek, p0, Ep = one()
    tr.update(mats=names, k_0=k0, E_k=Ek, p_0=p0, E_p=Ep)
    if kind == "trap":
        tr["density"] = dfun()
    elif kind == "neutron":
        tr["prm"] = {"phi": dr.make(S.pick("prmfn", ["c", "tlin", "step"]), 1.0), "K": dr.make(S.pick("prmfn", ["c", "xlin"]), 1.5),
                     "n_max": fn.const(u(1, 3)), "A_0": dr.make(S.pick("prmfn", ["c", "tlin"]), 1.0), "E_A": fn.const(u(0.02, 0.06))}
    else:
        tr["prm"] = {"phi_0": dr.make(S.pick("prmfn", ["c", "tlin", "osc", "step"]), 1.0), "n_amax": dr.make(S.pick("prmfn", ["c", "xlin"]), 2.0),
                     "n_bmax": fn.const(u(1, 3)), "eta_a": dr.make(S.pick("prmfn", ["c", "tlin"]), 0.8), "eta_b": fn.const(u(0.3, 1)),
                     "f_a": dr.make(S.pick("prmfn", ["c", "xlin"]), 1.0), "f_b": fn.const(u(0.3, 1))}
    return tr


DEFAULT = {
    "geoms": GEOMS, "chem": [False, False, True], "soret": [False, True], "temps": TEMP_ANY,
    "ntraps": [0, 1, 2, 3], "trapkinds": ["trap", "trap", "neutron", "extrinsic"], "traps_el": ["CG", "DG"],
    "hbc": H_OPEN + H_FLUX, "trapbc": [False, False, True], "sources": [0, 1, 2], "decay": [False, False, True],
    "transient": [True], "ic": [True, True, True, False], "zeros": 0.45, "uj": [True, True, False], "heat_sources": [1, 0, 2, 1, 3],
}


def model(profile, family, seed, i, pseed):
    """Scenario data without stepsize control, schedule and exports."""
    o = dict(DEFAULT)
    o.update(profile)
    S = Strat(seed, family, i)
    P = rng(seed, family, i, "params", pseed)
    tf = float(P.uniform(0.8, 2.5))
    geom = S.pick("geom", o["geoms"])
    chem = S.pick("chem", o["chem"])
    kinds = o.get("chem_temps", o["temps"]) if chem else o["temps"]
    tk = S.pick("temp", kinds)
    if tk == "heat_t" and not S.pick("transient", o["transient"]):
        tk = "heat_s"
    S.n.pop("transient", None)
    soret = S.pick("soret", o["soret"])
    graded = [k for k in kinds if k in ("xlin", "lin", "heat_t", "heat_s", "xdmf")]
    if soret and graded and tk not in graded and S.coin("graded", 0.8):  # otherwise there is nothing to see
        tk = S.pick("tempsoret", graded)
        if tk == "heat_t" and not S.pick("transient", o["transient"]):
            tk = "heat_s"
        S.n.pop("transient", None)
    heat = tk.startswith("heat")
    opt = {"chem": chem, "soret": soret, "heat": heat, "Qfun": S.coin("Qfun"), "thermfun": S.coin("thermfun"),
           "henry": S.pick("henry", o.get("henry", [0, 1, 2])) if chem else 0, "cond": o.get("cond")}
    mesh = make_mesh(geom, P)
    mats = make_mats(geom, S, P, opt)
    xmax = (mesh["x1"] if mesh["kind"] == "2d" else mesh["vertices"][-1])
    dr = fn.Draw(P, tf, xmax)
    surfaces = [1, 2, 3, 4] if mesh["kind"] == "2d" else [1, 2]
    vols = sorted(sum([m["ids"] for m in mats], []))
    traps = []
    for j in range(S.pick("ntraps", o["ntraps"])):
        t = make_trap(j, S.pick("trapkind", o["trapkinds"]), mats, S, P, dr, tf, opt)
        if t is not None:
            traps.append(t)
    if not S.pick("transient", o["transient"]):
        for t in traps:
            if t["kind"] != "trap":
                t["kind"] = "trap"
                t.pop("prm")
                t["density"] = dr.make("lin", 1.0)
        transient = False
    else:
        transient = True
    bcs = []
    hk = [k for k in o["hbc"] if not (k == "sk" and mesh["kind"] == "2d")]

    def shared(left, name, p):
        """further surfaces of a condition, in any order"""
        ss, q = [left.pop(0)], rng(seed, family, i, name, len(left))
        if left and S.coin(name, p):
            ss = [int(s) for s in q.permutation(ss + [left.pop(int(q.integers(0, len(left)))) for _ in range(int(q.integers(1, len(left) + 1)))])]
        return ss
    left = list(surfaces)
    while left:
        k = S.pick("hbc", hk)
        bcs += make_hbc(k, [left.pop(0)] if k == "none" else shared(left, "both", 0.2), S, P, dr, tf)
    if not transient and not any(b["kind"] in ("dir", "sieverts", "henrys", "imp", "custom_dir", "recomb", "mass") for b in bcs):
        bcs = [b for b in bcs if 1 not in b["surfaces"]]
        bcs += make_hbc("dir", [1], S, P, dr, tf)
    el = S.pick("traps_el", o["traps_el"])
    for j, t in enumerate(traps):
        if S.pick("trapbc", o["trapbc"]) and el == "CG":  # see known findings: not applied to DG traps
            bcs.append({"kind": "dir", "field": S.pick("trapbcf", [j + 1, str(j + 1)]), "surfaces": [S.pick("trapbcs", surfaces)],
                        "value": dr.make(S.pick("bcfn", ["c", "tlin"]), 0.5)})
    if heat:
        first, left = True, list(surfaces)
        while left:
            opts = ["dir", "conv"] if (first and tk == "heat_s") else ["dir", "conv", "flux", "custom_flux", "none"]
            first = False
            k = S.pick("tbc", opts)
            ss = [left.pop(0)] if k == "none" else shared(left, "tboth", 0.3)
            bcs += make_tbc(k, ss, S, P, dr, tf)
            if k in ("conv", "flux", "custom_flux") and S.coin("ttwo", 0.2):
                bcs += make_tbc(S.pick("ttwok", ["flux", "conv", "custom_flux"]), ss, S, P, dr, tf)
    bcs = shuffled(bcs, rng(seed, family, i, "bcorder"))
    sources = []
    for j in range(S.pick("nsrc", o["sources"])):
        f = S.pick("srcfield", ["0", "solute", 0, "mobile"] + ([1, "1"] if traps else []) + ([str(len(traps)), len(traps)] if len(traps) > 1 else []))
        v = S.pick("srcvol", vols + ([vols] if len(vols) > 1 and str(f).isalpha() or f in (0, "0") else []))
        fv = dr.make(S.pick("srcfn", ["c", "lin", "quad", "tlin", "xlin", "step", "osc"]), 0.5)
        if str(f) in ("0", "solute", "mobile") and not isinstance(v, list) and S.coin("gauss", 0.25) and tk not in ():
            fv = {"k": "gauss", "flux": dr.make(S.pick("gfn", ["c", "tlin"]), 0.3), "d": float(xmax - P.uniform(0.3, 0.9)), "w": float(P.uniform(0.25, 0.5))}
            f = "0"
        sources.append({"field": f, "volume": v, "value": fv})
    if S.pick("decay", o["decay"]):
        f = S.pick("decayf", ["all", "0", "solute"] + ([1, "1"] if traps else []))
        sources.append({"decay": float(P.uniform(0.05, 0.5)), "volume": S.pick("decayv", vols + ([vols] if len(vols) > 1 and f != "all" else [])), "field": f})
    for j in range(S.pick("hsrc", o["heat_sources"]) if heat else 0):
        sources.append({"field": "T", "volume": S.pick("hsrcv", vols + ([vols] if len(vols) > 1 else [])),
                        "value": dr.make(S.pick("hsrcfn", ["tlin", "osc", "c", "lin", "step"]), 40.0)})
    ics = []
    henry = any(m.get("law") == "henry" for m in mats)
    if transient and (henry or S.pick("ic", o["ic"])):
        fi = S.pick("icf", [0, "0", "solute"])
        low = 1.0 if chem else 0.8
        ics.append({"field": fi, "value": dr.make(S.pick("icfn", ["c", "xlin", "c"]), low)})
        for j, t in enumerate(traps):
            if S.coin("icT", 0.4):
                ics.append({"field": S.pick("icfT", [j + 1, str(j + 1)]), "value": dr.make(S.pick("icfn", ["c", "xlin"]), 0.3)})
        if not henry and len(ics) > 1 and S.coin("icrest", 0.2):
            ics = ics[1:]
        ics = shuffled(ics, rng(seed, family, i, "icorder"))
    sc = {"mesh": mesh, "mats": mats, "traps": traps, "bcs": bcs, "sources": sources, "ics": ics,
          "temp": make_temp(tk, S, P, tf, 0.0),
          "settings": {"chemical_pot": bool(chem), "soret": bool(soret), "traps_el": el,
                       "transient": transient, "final_time": tf if transient else None, "update_jacobian": S.pick("uj", o["uj"])},
          "geom": geom, "tkind": tk}
    r = rng(seed, family, i, "linear")  # how the linear systems are solved is up to the user
    for d in [sc["settings"]] + [sc["temp"]] * bool(heat) + [t for t in traps if t["kind"] != "trap"]:
        if r.random() < 0.2:
            d["solver"] = [str(r.choice(["mumps", "umfpack", "superlu"])), str(r.choice(["default", "none"]))]
    r = rng(seed, family, i, "zero")
    if r.random() < o["zeros"]:
        zeros(sc, r)
    if mesh["kind"] == "2d":
        tilt(sc, rng(seed, family, i, "tilt", pseed), mesh["y1"])
    return sc


def zeros(sc, r):
    """some of the numbers are zero (the same ones in all runs of a structure: the forms differ)"""
    henry = any(m.get("law") == "henry" for m in sc["mats"])
    Z, steady = fn.const(0.0), not sc["settings"]["transient"]
    slots = []
    add = lambda d, *names: slots.extend((d, n) for n in names if n in d)
    for m in sc["mats"]:
        add(m, "E_D", "E_S")
    for t in sc["traps"]:
        add(t, "E_k", "E_p", "density")
        add(t.get("prm", {}), "phi", "A_0", "E_A", "phi_0", "f_a", "f_b", "eta_a")
        if not steady:
            add(t, "p_0")
    for b in sc["bcs"]:
        if b["field"] == "T":
            add(b, *(["value"] if b["kind"] == "flux" else ["p"]))
        elif b["kind"] == "sk":
            add(b, "init", "J", "E_sb", "E_bs")
        elif not (henry and b["kind"] in H_OPEN):
            add(b, "value", "P", "phi", "R_p", "E_S", "E_H", "E_D", "E_Kr", "E_Kd", "ext", "p")
            if not steady:
                add(b, "Kr_0", "h")
            if b["kind"] == "dissoc":
                add(b, "Kd_0")
    for s in sc["sources"]:
        if s.get("value", {}).get("k") != "gauss":
            add(s, "value")
    if not henry:
        for x in sc["ics"]:
            add(x, "value")
    for _ in range(int(r.integers(1, 6))):
        if not slots:
            return
        d, n = slots.pop(int(r.integers(0, len(slots))))
        v = d[n]
        if isinstance(v, list):
            k = int(r.integers(0, len(v)))
            d[n] = v[:k] + [dict(Z) if isinstance(v[k], dict) else 0.0] + v[k + 1:]
        elif d.get("kind") == "imp" and n in ("E_Kr", "E_Kd", "E_D") or not isinstance(v, dict):
            d[n] = 0.0
        else:
            d[n] = dict(Z)


def tilt(o, r, ymax, s=1.0):
    """in 2D, some of the functions of x depend on y as well"""
    if isinstance(o, dict):
        if o.get("k") in ("lin", "xlin", "quad"):
            if r.random() < 0.5:
                o["y"] = s * float(r.uniform(0.1, 0.5)) * o["a"] / ymax
            return
        for k in o:  # a strong gradient of the temperature shows the error of the quadrature
            tilt(o[k], r, ymax, 0.2 if k == "temp" else s)
    elif isinstance(o, list):
        for x in o:
            tilt(x, r, ymax, s)


def shuffled(lst, r):
    p = r.permutation(len(lst))
    return [lst[int(k)] for k in p]


# ------------------------------------------------------------------ stepsize control and schedules
def make_dt(r, tf, mode=None, nsteps=8, milestones=None):
    """Stepsize control; mode: adaptive | fixed"""
    u = lambda a, b: float(r.uniform(a, b))
    mode = mode or ("adaptive" if r.random() < 0.8 else "fixed")
    d = {"initial": tf / u(0.7 * nsteps, 1.6 * nsteps), "ratio": None, "max": None, "min": None, "milestones": milestones}
    if mode == "fixed":
        return d
    d["ratio"] = u(1.05, 2.0)
    d["min"] = d["initial"] * 10 ** u(-6, -2)
    m = r.random()
    if m < 0.35:
        d["max"] = d["initial"] * u(1.0, 3.0)
    elif m < 0.6:
        d["max"] = {"t0": tf * u(0.2, 0.8), "a": None if r.random() < 0.5 else d["initial"] * u(1, 4), "b": d["initial"] * u(0.5, 2)}
    return d


def make_milestones(r, tf, n=None):
    n = int(r.integers(0, 6)) if n is None else n
    if n == 0:
        return None if r.random() < 0.7 else []
    ms = [float(tf * r.uniform(0.02, 1.0)) for _ in range(n)]
    for k in range(n):
        if r.random() < 0.25:  # close to another one
            ms.append(float(ms[k] * (1 + 10 ** r.uniform(-4.5, -1))))
        if r.random() < 0.1:  # duplicate
            ms.append(ms[k])
    if r.random() < 0.2:
        ms.append(float(tf))
    if r.random() < 0.15:
        ms.append(float(tf * r.uniform(1.05, 2)))
    if r.random() < 0.1:
        ms.append(0.0)
    return ms


def make_schedule(r, ncalls=24, p_div=0.12, p_it=0.3, bursts=True, garbage=("keep", "scale", "noise", "nan", "zero")):
    """decisions of the hydrogen solver by call index"""
    out = {}
    n = 0
    while n < ncalls:
        x = r.random()
        if x < p_div:
            k = int(r.integers(1, 4)) if bursts and r.random() < 0.4 else 1
            for _ in range(k):
                out[str(n)] = ["div", str(r.choice(list(garbage))), int(r.integers(0, 31))]
                n += 1
            continue
        if x < p_div + p_it:
            out[str(n)] = ["it", int(r.choice([1, 2, 3, 4, 4, 5, 5, 6, 9, 20]))]
        n += 1
    return out
