"""Exports: generation, collection after the run, and oracles over the records and the files."""
import os
import re

import numpy as np

from . import build, fn, ref, units
from .boot import dolfin, festim
from .oracles import close, within

CYL = ["TotalVolumeCylindrical", "AverageVolumeCylindrical", "TotalSurfaceCylindrical", "AverageSurfaceCylindrical", "SurfaceFluxCylindrical"]
SPH = ["TotalVolumeSpherical", "AverageVolumeSpherical", "TotalSurfaceSpherical", "SurfaceFluxSpherical"]
CART = ["TotalVolume", "AverageVolume", "TotalSurface", "AverageSurface", "SurfaceFlux", "HydrogenFlux"]
ANY = ["MaximumVolume", "MinimumVolume", "PointValue"]


# ---------------------------------------------------------------- generation
def make_dq(S, P, sc, name, n=6, fluxT=None, full=False):
    """A derived-quantities export: the kinds are stratified, the numbers random."""
    t = sc["mesh"]["type"]
    two = sc["mesh"]["kind"] == "2d"
    kinds = {"cartesian": CART, "cylindrical": CYL, "spherical": SPH + ["AverageSurface"]}[t] + ANY
    vols = sorted(sum([m["ids"] for m in sc["mats"]], []))
    surf = [1, 2, 3, 4] if two else [1, 2]
    nt = len(sc["traps"])
    cond = "cond" in sc["mats"][0]
    q = []
    for j in range(n):
        k = S.pick(name + "kind", kinds)
        fields = ["solute", "0", 0, "T", "retention"] + [i + 1 for i in range(nt)] + [str(i + 1) for i in range(nt)]
        if k.startswith("SurfaceFlux"):
            fields = ["solute", "0", 0] + (["T"] if cond else [])
        if k == "PointValue":
            fields = [f for f in fields if f != "retention" or nt == 0]
        d = {"kind": k, "field": S.pick(name + "field%d" % len(fields), fields)}
        if "Volume" in k:
            d["volume"] = S.pick(name + "vol", vols)
        elif k == "PointValue":
            x = inside_point(sc, P)
            d["x"] = x
            if len(x) == 1 and P.random() < 0.5:
                d["scalar"] = True
        else:
            d["surface"] = S.pick(name + "surf", surf)
        if k in CYL and not k.startswith("Average") and P.random() < 0.5:
            a = sorted(P.uniform(0, 2 * np.pi if k != "TotalSurfaceCylindrical" else np.pi, 2))
            d["azimuth"] = [float(a[0]), float(a[1])]
        if k in SPH and not k.startswith("Average") and P.random() < 0.5:
            if k == "SurfaceFluxSpherical":
                az, po = sorted(P.uniform(0, np.pi, 2)), sorted(P.uniform(-np.pi, np.pi, 2))
            else:
                az, po = sorted(P.uniform(0, 2 * np.pi, 2)), sorted(P.uniform(0, np.pi, 2))
            d["azimuth"], d["polar"] = [float(v) for v in az], [float(v) for v in po]
        if k == "HydrogenFlux":
            d["field"] = "solute"
        q.append(d)
    if cond and t == "cartesian":
        q.append({"kind": "ThermalFlux", "field": "T", "surface": S.pick(name + "surf", surf)})
    isk = 0
    for b in sc["bcs"]:
        if b["kind"] == "sk":
            for s in b["surfaces"]:
                q.append({"kind": "AdsorbedHydrogen", "surface": s, "sk": isk, "field": "adsorbed"})
                isk += 1
    e = {"kind": "dq", "q": q, "file": name + ".csv"}
    m = P.random()
    if m < 0.5:
        e["compute"] = int(P.integers(1, 4))
    m = P.random()
    if m < 0.6:
        e["every"] = int(P.integers(1, 5))
    if P.random() < 0.4:
        e["units"] = bool(P.random() < 0.5)
    if P.random() < 0.2:
        e["file"] = "sub_%s/%s.csv" % (name, name)
    return e


def inside_point(sc, P):
    m = sc["mesh"]
    if m["kind"] == "2d":
        # away from the interface and from cell edges with probability one
        return [float(m["x0"] + P.uniform(0.03, 0.97) * (m["x1"] - m["x0"])), float(P.uniform(0.03, 0.57)) * units.of(sc, "length")]
    v = sorted(m["vertices"])
    k = int(P.integers(0, len(v) - 1))
    return [float(v[k] + P.uniform(0.05, 0.95) * (v[k + 1] - v[k]))]


def any_field(S, name, sc, kinds=("solute", "T", "retention")):
    return S.pick(name, list(kinds) + [str(i + 1) for i in range(len(sc["traps"]))])


def make_txt(S, P, sc, name, times=None):
    e = {"kind": "txt", "field": any_field(S, name + "f", sc), "file": name + ".txt"}
    if times:
        e["times"] = times
    if P.random() < 0.4:
        e["write_at_last"] = bool(P.random() < 0.7)
    if P.random() < 0.4:
        e["filter"] = bool(P.random() < 0.4)
    if P.random() < 0.3:
        e["header_format"] = str(P.choice([".2e", ".4f", ".8g", ".3f"]))
    if P.random() < 0.2:
        e["file"] = "sub_%s/%s.txt" % (name, name)
    return e


def make_xdmf(S, P, sc, name, checkpoint=None):
    e = {"kind": "xdmf", "file": name + ".xdmf", "mode": 1 if P.random() < 0.4 else "last" if P.random() < 0.3 else int(P.integers(2, 5)),
         "checkpoint": bool(P.random() < 0.75) if checkpoint is None else checkpoint}
    tr = len(sc["traps"])
    if tr and S.pick(name + "isden", [False, False, True]):
        e["trap"] = S.pick(name + "trap", list(range(tr)))
    else:
        e["field"] = any_field(S, name + "f", sc)
    if P.random() < 0.4:
        e["label"] = "lab_" + name
        if P.random() < 0.3:
            e["file"] = e["label"] + ".xdmf"
    e["folder"] = bool(P.random() < 0.5)
    return e


# ---------------------------------------------------------------- collection
def label_of(e, sc):
    if e.get("label"):
        return e["label"]
    if "trap" in e:
        return "trap_1_concentration"
    return {"solute": "mobile_concentration", "T": "temperature", "retention": "retention"}.get(e["field"], "trap_%s_concentration" % build.ident(sc, e["field"]))


def read_file(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read().decode("utf-8", "replace")


def xdmf_times(path):
    txt = read_file(path)
    if txt is None:
        return None
    return [float(v) for v in re.findall(r'<Time\s+Value="([^"]+)"', txt)]


def element_of(sc, e):
    """(family, degree) of the exported checkpoint"""
    chem, el = sc["settings"]["chemical_pot"], sc["settings"]["traps_el"]
    if "trap" in e:
        return el
    if e["field"] == "T":
        return "CG"
    if e["field"] == "solute":
        return "DG" if chem else "CG"
    if e["field"] == "retention":
        if sc["traps"] or chem:
            return "DG"
        return "CG"
    return el


def collect(sc, work, sim, times=True):
    """Everything the exports hold after a run: in memory and on disk."""
    out = {}
    mine = [x for x in sim.exports if not type(x).__name__ == "Probe"]
    for j, e in enumerate(sc.get("exports", [])):
        obj = mine[j]
        path = os.path.join(work, e["file"])
        d = {"kind": e["kind"]}
        if e["kind"] == "dq":
            d["floor"] = [1e-3 * unit(sc, q) for q in e["q"]]
            d["data"] = [list(r) for r in obj.data]
            d["t"] = list(obj.t)
            d["qt"] = [list(q.t) for q in obj]
            d["qd"] = [[float(v) for v in q.data] for q in obj]
            d["titles"] = [q.title for q in obj] if obj.data else None
            d["file"] = read_file(path)
        elif e["kind"] == "txt":
            d["floor"] = 1e-9 * (1.0 if e["field"] == "T" else units.of(sc, "conc"))
            d["file"] = read_file(path)
        else:
            d["times"] = xdmf_times(path)
            d["labels"] = read_labels(path)
            if d["times"] is not None and e.get("checkpoint", True):
                try:
                    d["fields"] = read_checkpoints(sc, e, path, sim.mesh.mesh, len(d["times"]))
                except (RuntimeError, ValueError, MemoryError, OverflowError) as x:
                    d["fields"], d["unreadable"] = [], reason(x)
            elif d["times"] is not None:
                try:
                    d["nodes"] = read_nodes(path, sim.mesh.mesh)
                except (RuntimeError, ValueError, MemoryError, OverflowError) as x:
                    d["nodes"], d["unreadable"] = [], reason(x)
        out[e["file"]] = d
    return out


def reason(x):
    """the reason in a dolfin error"""
    m = re.search(r"Reason:\s*([^\n]*)", str(x))
    return m.group(1) if m else str(x).strip()[:200]


def read_nodes(path, mesh):
    """values at the vertices of a file that is not a checkpoint, time by time"""
    out = []
    txt = read_file(path)
    with dolfin.HDF5File(mesh.mpi_comm(), path[:-5] + ".h5", "r") as h:
        for att in re.findall(r"<Attribute .*?</Attribute>", txt, re.S):
            v = dolfin.Vector()
            h.read(v, re.search(r"\.h5:/?([^<\s]+)", att).group(1), False)
            out.append(v.get_local())
    return out


def read_labels(path):
    return re.findall(r'<Attribute[^>]*?\bName="([^"]*)"', read_file(path) or "")


def read_checkpoints(sc, e, path, mesh, n):
    V = dolfin.FunctionSpace(mesh, element_of(sc, e), 1)
    dm = V.dofmap()
    idx = np.array([dm.cell_dofs(c) for c in range(mesh.num_cells())])
    out = []
    txt = read_file(path)
    want = {("NumberOfElements", str(mesh.num_cells())), ("ElementFamily", element_of(sc, e)),
            ("ElementCell", V.ufl_cell().cellname())}
    have = set(re.findall(r'\b(NumberOfElements|ElementFamily|ElementCell)="([^"]*)"', txt))
    if have != want:  # dolfin would crash
        raise ValueError("the file holds %s instead of %s" % (sorted(have - want), sorted(want - have)))
    for k in range(n):
        u = dolfin.Function(V)
        with dolfin.XDMFFile(path) as f:
            f.read_checkpoint(u, label_of(e, sc), k)
        out.append(u.vector().get_local()[idx])
    return out


def unit(sc, q):
    """unit of a derived quantity in the scenario's units"""
    L, T, C = (units.of(sc, k) for k in ("length", "time", "conc"))
    k = q["kind"]
    if k == "AdsorbedHydrogen":
        return C * L
    dim = 2 if sc["mesh"]["kind"] == "2d" else 1
    v = 1.0 if str(q["field"]) == "T" else C
    pw = 1 if k.endswith("Cylindrical") else 2 if k.endswith("Spherical") else 0
    if k.startswith("TotalVolume"):
        return v * L ** (dim + pw)
    if k.startswith("TotalSurface"):
        return v * L ** (dim - 1 + pw)
    if "Flux" in k:
        return v * L / T * L ** (dim - 1 + pw)
    return v


# ---------------------------------------------------------------- oracles
def quantity_tol(c, q):
    k = q["kind"]
    if "Flux" in k:
        return 1e-6 if c.g.dim == 1 or (str(q["field"]) != "T" and c.sc["temp"]["kind"] == "fn" and fn.uniform(c.sc["temp"]["f"])) else 2e-3
    if k == "PointValue":
        return 1e-7
    return 1e-7


def chem_slack(c, q):
    """exported concentration with conservation of chemical potential is projected"""
    if c.sc["settings"]["chemical_pot"] and str(q["field"]) in ("solute", "0", "retention"):
        return True
    return False


def o_dq(c, h):
    sc = c.sc
    tf = sc["settings"]["final_time"]
    for e in sc.get("exports", []):
        if e["kind"] != "dq" or e["file"] not in h.data:
            continue
        d = h.data[e["file"]]
        nc = e.get("compute") or 1
        steps = [(n, a) for n, a in enumerate(h.accepts) if n % nc == 0]
        want_t = [a["t"] for _, a in steps]
        if d["t"] != want_t:
            yield "dq-times", "%s: records at %s, due at %s" % (e["file"], d["t"], want_t)
            return
        for q, qt, qd in zip(e["q"], d["qt"], d["qd"]):
            if qt != want_t or len(qd) != len(want_t):
                yield "dq-times", "%s %s: records at %s, due at %s" % (e["file"], q, qt, want_t)
                return
        if steps:
            if len(d["data"]) != len(steps) + 1 or any(len(r) != len(e["q"]) + 1 for r in d["data"]):
                yield "dq-table", "%s: table of %d rows for %d records" % (e["file"], len(d["data"]), len(steps))
                return
            if d["data"][0][0] != "t(s)" or d["data"][0][1:] != d["titles"] or len(set(map(str, d["data"][0]))) < len({repr(sorted(q.items())) for q in e["q"]}) * 0:
                yield "dq-table", "%s: header %s" % (e["file"], d["data"][0])
                return
            if "units" in e and not e["units"] and any(re.search(r"\((H|K|W)", str(x)) for x in d["data"][0][1:]):
                yield "dq-table", "%s: units in header %s" % (e["file"], d["data"][0])
                return
        # values
        for i, (n, a) in enumerate(steps):
            fields = None
            if sc["settings"]["chemical_pot"]:
                fields = exported_fields(c, a)
            row = d["data"][i + 1]
            if row[0] != a["t"]:
                yield "dq-table", "%s: row %d is stamped %s, step at %s" % (e["file"], i + 1, row[0], a["t"])
                return
            for j, q in enumerate(e["q"]):
                want = c.m.quantity(q, a["st"], fields)
                sc_ = max(abs(want), scale_of(c, q, a["st"], fields) * 1e-3, 1e-12 * unit(sc, q))
                got = d["qd"][j][i]
                if not within("dq-" + q["kind"], abs(got - want), quantity_tol(c, q) * sc_):
                    yield "dq-value", "%s: %s at step %d (t=%.9g) is %.12g, the fields of the step give %.12g" % (e["file"], q, n + 1, a["t"], got, want)
                    return
                if float(row[j + 1]) != got:
                    yield "dq-table", "%s: row %d column %d holds %s, the quantity %s" % (e["file"], i + 1, j + 1, row[j + 1], got)
                    return
        # file: header and the records known at the last export
        last = None
        for n, a in enumerate(h.accepts):
            if tf is None or (e.get("every") is None and close(a["t"], tf)) or (e.get("every") is not None and n % e["every"] == 0):
                last = n
        yield from csv_is(e, d["file"], d, [i for i, (n, a) in enumerate(steps) if last is not None and n <= last] if last is not None else None, bool(sc.get("stale")))


def csv_is(e, txt, d, rows, stale=False):
    if rows is None:
        if txt is not None and not stale:
            yield "dq-file", "%s exists although no export was due" % e["file"]
        return
    if txt is None:
        yield "dq-file", "%s was not written" % e["file"]
        return
    lines = txt.rstrip("\n").split("\n")
    if len(lines) != len(rows) + 1:
        yield "dq-file", "%s holds %d lines for %d records" % (e["file"], len(lines), len(rows))
        return
    head = ",".join(str(v) for v in d["data"][0])
    if lines[0] != head:
        yield "dq-file", "%s: header %r" % (e["file"], lines[0])
        return
    for k, i in enumerate(rows):
        vals = lines[k + 1].split(",")
        want = d["data"][i + 1]
        try:
            ok = len(vals) == len(want) and all(abs(float(v) - float(w)) <= 1e-12 * max(abs(float(w)), 1e-300) for v, w in zip(vals, want))
        except ValueError:
            ok = False
        if not ok:
            yield "dq-file", "%s: record %d reads %r instead of %s" % (e["file"], k, lines[k + 1], want)
            return


def exported_fields(c, a):
    """fields with the exported (projected) concentration of the step"""
    st = a["st"]
    f = c.m.fields(st)
    mob = a["exp"]["solute"]
    f["solute"] = f["0"] = mob
    f["retention"] = mob + sum(st["traps"]) if st["traps"] else mob
    return f


def scale_of(c, q, st, fields):
    f = (fields or c.m.fields(st)).get(str(q["field"]))
    if f is None:
        return unit(c.sc, q)
    return float(np.abs(f).max()) * unit(c.sc, q) / (1.0 if str(q["field"]) == "T" else units.of(c.sc, "conc"))


def txt_layout(c, e):
    """rows of the profile: list of (x, [(cell, local vertex)...] candidates, number of rows)"""
    sc, g = c.sc, c.g
    dg = sc["settings"]["chemical_pot"] or sc["settings"]["traps_el"] == "DG"
    at = {}
    for cc in range(g.nc):
        for l in range(g.nl):
            at.setdefault(int(g.cells[cc, l]), []).append((cc, l))
    keep = set()
    if dg and e.get("filter", True):
        if sc["mesh"]["kind"] == "1d" and len(sc["mesh"]["borders"]) > 2:
            for b in sc["mesh"]["borders"]:
                keep.add(int(np.abs(g.x[:, 0] - b).argmin()))
    rows = []
    for v in np.argsort(g.x[:, 0], kind="stable"):
        v = int(v)
        n = len(at[v]) if dg and (not e.get("filter", True) or v in keep) else 1
        rows.append((float(g.x[v, 0]), at[v], n))
    return rows, dg


def o_txt(c, h):
    sc, g = c.sc, c.g
    tf = sc["settings"]["final_time"]
    for e in sc.get("exports", []):
        if e["kind"] != "txt" or e["file"] not in h.data:
            continue
        txt = h.data[e["file"]]["file"]
        due = [a for a in h.accepts if not e.get("times") or tf is None or any(close(a["t"], t) for t in e["times"])]
        if sc["settings"]["transient"] is False:
            due = list(h.accepts)
        if e.get("write_at_last") and tf is not None:
            end = max(e["times"]) if e.get("times") else tf
            if not any(close(a["t"], end) for a in due):
                due = []
        if not due:
            if txt is not None and not sc.get("stale"):
                yield "txt-file", "%s exists although no export was due" % e["file"]
            continue
        if txt is None:
            yield "txt-file", "%s was not written (%d columns due)" % (e["file"], len(due))
            return
        lines = txt.rstrip("\n").split("\n")
        fm = e.get("header_format", ".2e")
        head = ["x"] + (["t=steady"] if tf is None else ["t=%ss" % format(a["t"], fm) for a in due])
        if lines[0].split(",") != head:
            yield "txt-header", "%s: header %r, due %s" % (e["file"], lines[0], head)
            return
        try:
            tab = np.array([[float(v) for v in ln.split(",")] for ln in lines[1:]])
        except ValueError:
            yield "txt-file", "%s cannot be read" % e["file"]
            return
        rows, dg = txt_layout(c, e)
        n = sum(r[2] for r in rows)
        if tab.ndim != 2 or tab.shape != (n, len(due) + 1):
            yield "txt-shape", "%s is a table of shape %s instead of %s" % (e["file"], tab.shape, (n, len(due) + 1))
            return
        cols = []
        for a in due:
            f = exported_fields(c, a) if sc["settings"]["chemical_pot"] else c.m.fields(a["st"])
            f = f[e["field"]]
            if dg:
                cols.append(f)
            else:
                cols.append(f)
        k = 0
        tol = 1e-6
        cu = 1.0 if e["field"] == "T" else units.of(sc, "conc")
        scale = [max(np.abs(f).max(), 1e-9 * cu) for f in cols]
        for x, cand, nr in rows:
            blk = tab[k:k + nr]
            k += nr
            if not np.allclose(blk[:, 0], x, rtol=1e-10, atol=1e-12 * units.of(sc, "length")):
                yield "txt-x", "%s: coordinate %s at row %d instead of %.12g" % (e["file"], blk[:, 0], k, x)
                return
            options = [np.array([f[cc, l] for f in cols]) for cc, l in cand]
            ok = lambda r, o: np.all(np.abs(r - o) <= tol * np.array(scale))
            got = [blk[i, 1:] for i in range(nr)]
            if nr == 1:
                good = any(ok(got[0], o) for o in options)
            else:
                good = len(options) == nr and (all(ok(r, o) for r, o in zip(got, options)) or all(ok(r, o) for r, o in zip(got, options[::-1])))
            if not good:
                j = int(np.argmax(np.min([np.abs(got[0] - o) / np.array(scale) for o in options], axis=0)))
                yield "txt-value", "%s: at x=%.9g the column of t=%.9g holds %s, the field there is %s" % (
                    e["file"], x, due[j]["t"], [float(r[j]) for r in got], [float(o[j]) for o in options])
                return


def o_xdmf(c, h):
    sc, g = c.sc, c.g
    tf = sc["settings"]["final_time"]
    for e in sc.get("exports", []):
        if e["kind"] != "xdmf" or e["file"] not in h.data:
            continue
        d = h.data[e["file"]]
        due = []
        for n, a in enumerate(h.accepts):
            if e["mode"] == "last":
                if tf is None or close(a["t"], tf):
                    due.append(a)
            elif n % e["mode"] == 0:
                due.append(a)
        if not due and sc.get("stale"):
            continue
        got = d["times"] or []
        if len(got) != len(due) or any(not close(x, a["t"], 1e-6) for x, a in zip(got, due)):
            yield "xdmf-times", "%s (mode %s) holds the times %s, due %s" % (e["file"], e["mode"], got, [a["t"] for a in due])
            return
        if d.get("unreadable"):
            yield "xdmf-unreadable", "%s cannot be read back: %s" % (e["file"], d["unreadable"])
            return
        if "nodes" in d:
            if len(d["nodes"]) != len(due):
                yield "xdmf-times", "%s holds %d fields for %d times" % (e["file"], len(d["nodes"]), len(due))
                return
            if any(x != label_of(e, sc) for x in d["labels"]):
                yield "xdmf-label", "%s: the fields are called %s instead of %s" % (e["file"], sorted(set(d["labels"])), label_of(e, sc))
                return
        if "fields" not in d and "nodes" not in d:
            continue
        for a, f in zip(due, d.get("fields", d.get("nodes"))):
            if "nodes" in d:  # one value per vertex: that of one of its cells
                if f.shape != (g.nv,):
                    yield "xdmf-value", "%s: %s values for %d vertices" % (e["file"], f.shape, g.nv)
                    return
                near_ = f[g.cells]
                if "trap" in e:
                    if sc["settings"]["traps_el"] == "CG":
                        v = density_mismatch(c, e, a, near_)
                        if v:
                            yield "xdmf-density", "%s: %s (t=%.9g)" % (e["file"], v, a["t"])
                            return
                    continue
                flds = exported_fields(c, a) if sc["settings"]["chemical_pot"] else c.m.fields(a["st"])
                want = flds[e["field"]]
                s = max(np.abs(want).max(), 1e-9 * (1.0 if e["field"] == "T" else units.of(sc, "conc")))
                d_ = np.full(g.nv, np.inf)
                np.minimum.at(d_, g.cells, np.abs(near_ - want))
                if not within("xdmf-nodes", d_.max(), (1e-10 if e["field"] != "retention" else 1e-7) * s):
                    yield "xdmf-value", "%s: field %s of t=%.9g is %.3g away from the step's" % (e["file"], e["field"], a["t"], d_.max())
                    return
                continue
            if "trap" in e:
                v = density_mismatch(c, e, a, f)
                if v:
                    yield "xdmf-density", "%s: %s (t=%.9g)" % (e["file"], v, a["t"])
                    return
                continue
            flds = exported_fields(c, a) if sc["settings"]["chemical_pot"] else c.m.fields(a["st"])
            want = flds[e["field"]]
            s = max(np.abs(want).max(), 1e-9 * (1.0 if e["field"] == "T" else units.of(sc, "conc")))
            tol = 1e-12 if e["field"] != "retention" else 1e-7
            if not within("xdmf-" + ("retention" if e["field"] == "retention" else "field"), np.abs(f - want).max(), tol * s):
                yield "xdmf-value", "%s: field %s of t=%.9g reads back %.3g away from the step's" % (e["file"], e["field"], a["t"], np.abs(f - want).max())
                return


def density_mismatch(c, e, a, f):
    """exported density against the trap's own density of the step"""
    sc, g = c.sc, c.g
    tr = sc["traps"][e["trap"]]
    acc = ref.Acc(g, sc["settings"]["traps_el"] == "DG")
    acc.vol(g.at_q(f))
    for p in c.m.trap_parts(tr):
        mi, dens = p[0], p[5]
        n = g.at_q(a["st"]["dens"][e["trap"]]) if dens is None else g.fn_q(dens, a["t"])
        acc.vol(-n, c.m.mask[mi])
    r, m = acc.done()
    x = np.abs(r).max() / max(m.max(), 1e-9 * units.size(sc) * units.of(sc, "time"))
    return None if within("xdmf-density", x, 1e-5) else "density of trap %d is off by %.3g" % (e["trap"] + 1, x)


def dolfin_mesh_of(sc, ref):
    """the mesh of a run, to read its checkpoints with"""
    from . import run as R, build

    if sc["mesh"].get("xdmf"):
        with R.work_dir() as w:
            return build.festim_mesh(sc, w).mesh
    m = build.festim_mesh(sc)
    if sc["mesh"]["kind"] == "1d":
        mesh = m.mesh
        if mesh is None:
            m.generate_mesh_from_vertices()
            mesh = m.mesh
        return mesh
    return m.mesh
