"""Scenario data -> festim objects, through festim's public interface only."""
import os
import zlib

import numpy as np

from . import boot, fn, ref, units
from .boot import dolfin, festim


class Budget(BaseException):
    """The run exceeded the number of solver calls any correct run could need."""


class Kill(BaseException):
    """Simulated interruption of the process (KeyboardInterrupt-like)."""


# ---------------------------------------------------------------- mesh
def dolfin_mesh(m):
    """(dolfin mesh, volume markers or None, surface markers or None, Geo arguments)"""
    if m["kind"] in ("1d", "1dm"):
        vs = m["vertices"]
        mesh = dolfin.Mesh()
        ed = dolfin.MeshEditor()
        ed.open(mesh, "interval", 1, 1)
        ed.init_vertices(len(vs))
        ed.init_cells(len(vs) - 1)
        num = list(range(len(vs)))
        if m.get("perm") is not None:  # another numbering of the same mesh
            num = [int(k) for k in ref.np.random.Generator(ref.np.random.PCG64([m["perm"]])).permutation(len(vs))]
        for i, v in enumerate(vs):
            ed.add_vertex(num[i], [v])
        cells = [[num[i], num[i + 1]] for i in range(len(vs) - 1)]
        if m.get("perm") is not None:
            k = ref.np.random.Generator(ref.np.random.PCG64([m["perm"], 1])).permutation(len(cells))
            cells = [sorted(cells[int(q)]) for q in k]
        for i, cl in enumerate(cells):
            ed.add_cell(i, cl)
        ed.close()
        return mesh
    mesh = dolfin.RectangleMesh(dolfin.Point(m["x0"], 0.0), dolfin.Point(m["x1"], m["y1"]), m["nx"], m["ny"])
    xy = mesh.coordinates()
    mid = 0.5 * (m["x0"] + m["x1"])
    for k in range(len(xy)):  # uneven cells, interface and boundary kept
        s = (xy[k, 0] - m["x0"]) / (m["x1"] - m["x0"])
        xy[k, 0] += m["warp"] * np.sin(2 * np.pi * s) * 0.3
    mesh.bounding_box_tree().build(mesh)
    del mid
    return mesh


def geo(sc, mesh):
    m = sc["mesh"]
    x = mesh.coordinates()
    cells = mesh.cells()
    mids = x[cells].mean(1)[:, 0]
    facets = []
    if m["kind"] in ("1d", "1dm"):
        b = m["borders"]
        vol = np.searchsorted(b, mids)
        lo, hi = x[:, 0].min(), x[:, 0].max()
        for c in range(len(cells)):
            for l in range(2):
                xv = x[cells[c, l], 0]
                if xv == lo:
                    facets.append((1, c, (l,)))
                if xv == hi:
                    facets.append((2, c, (l,)))
    else:
        nm = sum(len(q["ids"]) for q in sc["mats"])
        vol = np.ones(len(cells), int) if nm == 1 else np.where(mids < 0.5 * (m["x0"] + m["x1"]), 1, 2)
        tol = 1e-10 * (m["x1"] - m["x0"])
        for c in range(len(cells)):
            for lv in ((0, 1), (0, 2), (1, 2)):
                p = x[cells[c, list(lv)]]
                for sid, ok in ((1, abs(p[:, 0] - m["x0"]) < tol), (2, abs(p[:, 0] - m["x1"]) < tol),
                                (3, abs(p[:, 1]) < tol), (4, abs(p[:, 1] - m["y1"]) < tol)):
                    if ok.all():
                        facets.append((sid, c, lv))
    return ref.Geo(x.copy(), cells.copy(), vol, facets, m["type"])


def festim_mesh(sc, work=None):
    m = sc["mesh"]
    if m["kind"] == "1d":
        vs = list(m["vertices"])
        if m.get("perm") is not None:  # unordered, with a repeated vertex
            r = np.random.Generator(np.random.PCG64([m["perm"]]))
            vs = [vs[int(k)] for k in r.permutation(len(vs))] + [vs[1]]
        return festim.MeshFromVertices(np.array(vs), type=m["type"])
    mesh = dolfin_mesh(m)
    g = geo(sc, mesh)
    vm = dolfin.MeshFunction("size_t", mesh, mesh.topology().dim(), 0)
    for c in range(g.nc):
        vm[c] = int(g.vol[c])
    sm = dolfin.MeshFunction("size_t", mesh, mesh.topology().dim() - 1, 0)
    want = {}
    for sid, lst in g.facets.items():
        for c, lv in lst:
            want[tuple(sorted(int(g.cells[c, l]) for l in lv))] = sid
    mesh.init(mesh.topology().dim() - 1, 0)
    for fc in dolfin.facets(mesh):
        key = tuple(sorted(int(v) for v in fc.entities(0))) if mesh.topology().dim() > 1 else (int(fc.entities(0)[0]),)
        sm[fc] = want.get(key, 0)
    if m.get("xdmf") and work is not None:
        tag = zlib.crc32(repr((m, sc["mats"])).encode())
        vf, bf = os.path.join(work, "mesh_v%d.xdmf" % tag), os.path.join(work, "mesh_b%d.xdmf" % tag)
        if not os.path.exists(vf):
            with dolfin.XDMFFile(vf) as f:
                f.write(vm)
            mvc = dolfin.MeshValueCollection("size_t", mesh, mesh.topology().dim() - 1)
            for fc in dolfin.facets(mesh):
                if sm[fc]:
                    mvc.set_value(fc.index(), int(sm[fc]))
            mvc.rename("f", "f")
            with dolfin.XDMFFile(bf) as f:
                f.write(mvc)
        return festim.MeshFromXDMF(volume_file=vf, boundary_file=bf, type=m["type"])
    return festim.Mesh(mesh=mesh, volume_markers=vm, surface_markers=sm, type=m["type"])


# ---------------------------------------------------------------- pieces
def prop(p):
    a, b = p
    return a if b == 0 else (lambda T, a=a, b=b: a + b * T)


def borders_of(sc, mat):
    b = sc["mesh"]["borders"]
    out = [[b[i - 1], b[i]] for i in mat["ids"]]
    return out


def materials(sc):
    out = []
    for m in sc["mats"]:
        kw = {}
        if sc["mesh"]["kind"] == "1d" and len(sc["mesh"]["borders"]) > 2:
            bs = borders_of(sc, m)
            kw["borders"] = bs if len(bs) > 1 else bs[0]
        if "S_0" in m:
            kw.update(S_0=m["S_0"], E_S=m["E_S"], solubility_law=m["law"])
        if "Q" in m:
            kw["Q"] = prop(m["Q"])
        if "cond" in m:
            kw.update(thermal_cond=prop(m["cond"]), heat_capacity=prop(m["cp"]), rho=prop(m["rho"]))
        out.append(festim.Material(id=m["ids"] if len(m["ids"]) > 1 else m["ids"][0], D_0=m["D_0"], E_D=m["E_D"],
                                   name=m["name"], **kw))
    return out


def V(f):
    return fn.to_festim(f)


class Given(dolfin.UserExpression):
    """an input function given as a FEniCS expression with an attribute t"""

    def __init__(self, f, **kw):
        super().__init__(**kw)
        self.f, self.t = f, 0

    def eval(self, value, x):
        value[0] = fn.ev(self.f, x[None, :], self.t)[0]

    def value_shape(self):
        return ()


def VE(f):
    """the same, when the user gives a FEniCS object"""
    if not f.get("user"):
        return V(f)
    return dolfin.Constant(f["v"]) if f["k"] == "c" else Given(f, degree=2)


def ident(sc, field):
    """field of an export or initial condition: traps go by their id"""
    f = str(field)
    if f.isdigit() and f != "0" and "id" in sc["traps"][int(f) - 1]:
        return type(field)(sc["traps"][int(f) - 1]["id"])
    return field


def newton(d):
    """arguments of the Newton solver of a problem"""
    kw = {"maximum_iterations": d["max_it"]} if d.get("max_it") else {}
    if d.get("solver"):
        kw.update(linear_solver=d["solver"][0], preconditioner=d["solver"][1])
    return kw


def trap(t, materials=(), sc=None):
    mats = list(t["mats"])
    if t.get("ref") == "object":  # materials may be given by name or as objects
        mats = [[m for m in materials if m.name == n][0] for n in mats]
    mats = mats if len(mats) > 1 or t.get("lists") else mats[0]
    own = {"id": t["id"]} if "id" in t else {}
    if t["kind"] == "trap":
        d = [VE(x) for x in t["density"]] if t.get("lists") else VE(t["density"])
        return festim.Trap(k_0=t["k_0"], E_k=t["E_k"], p_0=t["p_0"], E_p=t["E_p"], materials=mats, density=d, **own)
    cls = festim.NeutronInducedTrap if t["kind"] == "neutron" else festim.ExtrinsicTrap
    return cls(k_0=t["k_0"], E_k=t["E_k"], p_0=t["p_0"], E_p=t["E_p"], materials=mats,
               absolute_tolerance=1e-12 * units.size(sc or {}), **newton(t), **{k: VE(v) for k, v in t["prm"].items()}, **own)


def _cd(b):
    add = b.get("add", 0.2)
    return lambda T, p, q, w: 1e-3 * T * p * q + add * w


def _cfH(b):
    lin, cross = b.get("lin", 0.3), b.get("cross", 0.1)
    return lambda T, solute, p, q, w: p * T * 1e-3 * q - lin * w * solute - cross * p * solute


def _cfT(T, solute, p, q, w):
    return p * q - 2e-3 * p * w * T


def _prms(b):
    """parameters of a user's function, in any order"""
    n = b.get("turn", 0)
    return {k: V(b[k]) if k in b else 1.0 for k in ["p", "q", "w"][n:] + ["p", "q", "w"][:n]}


def bc(b):
    k, s = b["kind"], list(b["surfaces"])
    s = s if len(s) > 1 else s[0]
    if k == "dir":
        return festim.DirichletBC(surfaces=s, value=V(b["value"]), field=b["field"])
    if k == "sieverts":
        return festim.SievertsBC(surfaces=s, S_0=b["S_0"], E_S=b["E_S"], pressure=V(b["P"]))
    if k == "henrys":
        return festim.HenrysBC(surfaces=s, H_0=b["H_0"], E_H=b["E_H"], pressure=V(b["P"]))
    if k == "imp":
        kw = {q: b[q] for q in ("Kr_0", "E_Kr", "Kd_0", "E_Kd") if q in b}
        if "P" in b:
            kw["P"] = V(b["P"])
        return festim.ImplantationDirichlet(surfaces=s, phi=V(b["phi"]), R_p=V(b["R_p"]), D_0=b["D_0"], E_D=b["E_D"], **kw)
    if k == "custom_dir":
        return festim.CustomDirichlet(surfaces=s, function=_cd(b), field=b["field"], **_prms(b))
    if k == "flux":
        return festim.FluxBC(surfaces=s, value=V(b["value"]), field=b["field"])
    if k == "recomb":
        return festim.RecombinationFlux(Kr_0=V(b["Kr_0"]), E_Kr=V(b["E_Kr"]), order=b["order"], surfaces=s)
    if k == "dissoc":
        return festim.DissociationFlux(Kd_0=V(b["Kd_0"]), E_Kd=V(b["E_Kd"]), P=V(b["P"]), surfaces=s)
    if k == "mass":
        return festim.MassFlux(h_coeff=V(b["h"]), c_ext=V(b["ext"]), surfaces=s)
    if k == "conv":
        return festim.ConvectiveFlux(h_coeff=V(b["h"]), T_ext=V(b["ext"]), surfaces=s)
    if k == "custom_flux":
        return festim.CustomFlux(surfaces=s, function=_cfT if b["field"] == "T" else _cfH(b), field=b["field"], **_prms(b))
    if k == "sk":
        ns = b["n_surf"]
        k_sb, k_bs = b["k_sb"], b["k_bs"]
        if "E_sb" in b:
            k_sb = lambda T, cs, c, p: b["k_sb"] * dolfin.exp(-b["E_sb"] / festim.k_B / T)
            k_bs = lambda T, cs, c, p: b["k_bs"] * dolfin.exp(-b["E_bs"] / festim.k_B / T)
        kw = {"p": V(b["J"])}
        J_vs = lambda T, cs, c, p: p * (1 - cs / ns)
        if b.get("number"):
            kw, J_vs = {}, V(b["J"])
        elif b.get("full"):
            kw["q"] = V(b["q"])
            k_sb = lambda T, cs, c, p, q: b["k_sb"] * dolfin.exp(-b["E_sb"] / festim.k_B / T) * q * (1 + b["a"] * cs / ns)
            k_bs = lambda T, cs, c, p, q: b["k_bs"] * dolfin.exp(-b["E_bs"] / festim.k_B / T) * (q + b["d"] * c / b["n_IS"])
            J_vs = lambda T, cs, c, p, q: p * ((1 - cs / ns) ** 2 - b["a"] * q * c / b["n_IS"])
        return festim.SurfaceKinetics(k_sb=k_sb, k_bs=k_bs, lambda_IS=b["lam"], n_surf=ns, n_IS=b["n_IS"],
                                      J_vs=J_vs, surfaces=s, initial_condition=b["init"], **kw)
    raise KeyError(k)


def source(s):
    if "decay" in s:
        return festim.RadioactiveDecay(decay_constant=s["decay"], volume=s["volume"], field=s["field"])
    if s["value"]["k"] == "gauss":
        f = s["value"]
        return festim.ImplantationFlux(flux=V(f["flux"]), imp_depth=f["d"], width=f["w"], volume=s["volume"])
    return festim.Source(value=VE(s["value"]), volume=s["volume"], field=s["field"])


def ic(i, sc):
    fld = ident(sc, i["field"])
    if "file" in i:
        return festim.InitialCondition(field=fld, value=i["file"], label=i["label"], time_step=i["time_step"])
    return festim.InitialCondition(field=fld, value=V(i["value"]))


def write_temperature_file(sc, path):
    """A temperature file as another tool would write it."""
    fm = festim_mesh(sc)
    Vs = dolfin.FunctionSpace(fm.mesh, "CG", 1)
    T = dolfin.Function(Vs)
    x = Vs.tabulate_dof_coordinates()
    n = 1 + zlib.crc32(repr(sc["temp"]).encode()) % 3  # the last of the checkpoints is used
    with dolfin.XDMFFile(path) as f:
        for k in range(n):
            T.vector().set_local(fn.ev(sc["temp"]["f"], x, 0.0) * (1 + 0.1 * (n - 1 - k)))
            T.vector().apply("insert")
            f.write_checkpoint(T, "Tlab", float(k), dolfin.XDMFFile.Encoding.HDF5, append=k > 0)


def temperature(sc, work):
    t = sc["temp"]
    if t["kind"] == "fn":
        return V(t["f"]) if sc.get("style", 0) & 4 else festim.Temperature(V(t["f"]))
    if t["kind"] == "heat":
        kw = {}
        if t["transient"]:
            if "file" in t:
                kw["initial_condition"] = festim.InitialCondition(field="T", value=t["file"], label=t["label"], time_step=t["time_step"])
            else:
                kw["initial_condition"] = V(t["ic"])
        kw.update(newton(t))
        return festim.HeatTransferProblem(transient=t["transient"], absolute_tolerance=1e-10 * units.size(sc, "T"), relative_tolerance=1e-12, **kw)
    if t["kind"] == "xdmf":
        path = os.path.join(work, "Tin%d.xdmf" % zlib.crc32(repr((t, sc["mesh"])).encode()))
        if not os.path.exists(path):
            write_temperature_file(sc, path)
        return festim.TemperatureFromXDMF(path, "Tlab")
    raise KeyError(t["kind"])


def max_stepsize(d):
    m = d["max"]
    if isinstance(m, dict):
        return lambda t: m["a"] if t < m["t0"] else m["b"]
    return m


def stepsize(d):
    kw = {}
    if d["ratio"] is not None:
        if d.get("old"):  # deprecated arguments of the same meaning
            kw.update(stepsize_change_ratio=d["ratio"], t_stop=d["max"]["t0"], stepsize_stop_max=d["max"]["b"], dt_min=d["min"])
        else:
            kw.update(stepsize_change_ratio=d["ratio"], max_stepsize=max_stepsize(d), dt_min=d["min"])
    if d["milestones"] is not None:
        kw["milestones"] = list(d["milestones"])
    if not kw and d.get("plain"):
        return d["initial"]
    return festim.Stepsize(d["initial"], **kw)


def settings(sc):
    s = sc["settings"]
    kw = newton(s)
    return festim.Settings(absolute_tolerance=s.get("atol", 1e-10), relative_tolerance=s.get("rtol", 1e-10), transient=s["transient"],
                           final_time=s["final_time"], chemical_pot=s["chemical_pot"], soret=s["soret"],
                           traps_element_type=s["traps_el"], update_jacobian=s["update_jacobian"], **kw)


# ---------------------------------------------------------------- exports
def derived_quantity(q, sc):
    kind = q["kind"]
    q = dict(q, field=ident(sc, q.get("field", "")))
    cls = getattr(festim, kind)
    if kind == "AdsorbedHydrogen":
        return cls(surface=q["surface"])
    if kind in ("HydrogenFlux", "ThermalFlux"):
        return cls(surface=q["surface"])
    kw = {}
    if "azimuth" in q:
        kw["azimuth_range"] = tuple(q["azimuth"])
    if "polar" in q:
        kw["polar_range"] = tuple(q["polar"])
    if kind == "PointValue":
        x = q["x"]
        return cls(field=q["field"], x=x if len(x) > 1 else (x[0] if q.get("scalar") else x))
    if "volume" in q:
        return cls(field=q["field"], volume=q["volume"], **kw)
    return cls(field=q["field"], surface=q["surface"], **kw)


def export(e, work, traps, sc):
    k = e["kind"]
    if k == "dq":
        kw = {}
        if e.get("compute"):
            kw["nb_iterations_between_compute"] = e["compute"]
        if e.get("every"):
            kw["nb_iterations_between_exports"] = e["every"]
        if "units" in e:
            kw["show_units"] = e["units"]
        q = [derived_quantity(q, sc) for q in e["q"]]
        kw["filename"] = os.path.join(work, e["file"]) if e.get("file") else None
        if sc.get("style", 0) & 4:
            dq = festim.DerivedQuantities(**kw)
            dq.extend(q)
            return dq
        return festim.DerivedQuantities(q, **kw)
    if k == "txt":
        kw = {}
        for a in ("filter", "write_at_last", "header_format"):
            if a in e:
                kw[a] = e[a]
        return festim.TXTExport(field=ident(sc, e["field"]), filename=os.path.join(work, e["file"]),
                                times=list(e["times"]) if e.get("times") else None, **kw)
    if k == "xdmf":
        kw = dict(mode=e["mode"], checkpoint=e.get("checkpoint", True))
        if e.get("label"):
            kw["label"] = e["label"]
        if e.get("folder", True):
            kw["folder"] = work
            if e["file"] != "%s.xdmf" % e.get("label"):  # the default
                kw["filename"] = e["file"]
        else:
            kw["filename"] = os.path.join(work, e["file"])
        if "trap" in e:
            return festim.TrapDensityXDMF(trap=traps[e["trap"]], **kw)
        return festim.XDMFExport(field=ident(sc, e["field"]), **kw)
    raise KeyError(k)


def simulation(sc, work, extra_exports=(), shared=None):
    """festim.Simulation of the scenario.  `shared`: objects reused by simulations of the same geometry."""
    mesh, mats = festim_mesh(sc, work), materials(sc)
    if shared is not None:
        key = repr((sc["mesh"], sc["mats"]))
        mesh, mats = shared.setdefault(key, (mesh, mats))
    traps = [trap(t, mats, sc) for t in sc["traps"]]
    kw = dict(mesh=mesh, materials=mats, sources=[source(s) for s in sc["sources"]],
              boundary_conditions=[bc(b) for b in sc["bcs"]], traps=traps, settings=settings(sc),
              temperature=temperature(sc, work), initial_conditions=[ic(i, sc) for i in sc["ics"]],
              dt=stepsize(sc["dt"]) if sc["settings"]["transient"] else None, log_level=sc.get("log_level", 40))
    ex = [export(e, work, traps, sc) for e in sc.get("exports", [])]
    pos = sc.get("probe_pos", 0)
    for e in extra_exports:
        ex.insert(min(pos, len(ex)), e)
    style = sc.get("style", 0)  # the same inputs given in another way
    one = lambda v: v[0] if len(v) == 1 else v
    if style & 1:
        kw["traps"], kw["materials"] = one(traps), one(mats)
    elif style & 2:
        kw["traps"], kw["materials"] = festim.Traps(traps), festim.Materials(mats)
    if style & 4:
        kw["exports"] = festim.Exports()
        for e in ex:
            kw["exports"].append(e)
    else:
        kw["exports"] = one(ex)
    if style & 8:
        sim = festim.Simulation(log_level=kw.pop("log_level"))
        kw["T"] = kw.pop("temperature")
        for k in sorted(kw, reverse=bool(style & 1)):
            setattr(sim, k, kw[k])
        return sim
    return festim.Simulation(**kw)
