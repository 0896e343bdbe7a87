"""Independent executable reference model: P1 finite elements in numpy.

It never solves anything: given two successive accepted states it evaluates the residual of the
documented equations (backward Euler) for that step, with the magnitude of the terms, so that
"this state is the step's solution" becomes a number.  Nothing here imports festim or dolfin.
"""
import numpy as np

from . import fn

KB = 8.6173303e-5


def _gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


def _quad(dim):
    """Barycentric points (nq, dim+1) and weights summing to one."""
    if dim == 1:
        x, w = _gauss01(7)
        return np.stack([1 - x, x], 1), w
    x, wx = _gauss01(7)
    pts, ws = [], []
    for xi, wi in zip(x, wx):
        for yi, wj in zip(x, wx):
            a, b = xi, yi * (1 - xi)
            pts.append([1 - a - b, a, b])
            ws.append(wi * wj * (1 - xi) * 2)
    return np.array(pts), np.array(ws)


def _p2(lam):
    """P2 basis at barycentric points: vertices then edge midpoints (i<j)."""
    n = lam.shape[1]
    out = [lam[:, i] * (2 * lam[:, i] - 1) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            out.append(4 * lam[:, i] * lam[:, j])
    return np.stack(out, 1)


class Geo:
    """Geometry of a simplex mesh with volume and surface markers."""

    def __init__(self, coords, cells, vol, facets, mtype):
        # facets: list of (surface id, cell index, tuple of local vertices)
        self.x = np.asarray(coords, float)
        if self.x.ndim == 1:
            self.x = self.x[:, None]
        self.cells = np.asarray(cells, int)
        self.vol = np.asarray(vol, int)
        self.type = mtype
        self.dim = self.x.shape[1]
        self.nc, self.nl = self.cells.shape
        self.nv = len(self.x)
        xc = self.x[self.cells]  # nc, nl, dim
        self.xc = xc
        J = np.stack([xc[:, k + 1] - xc[:, 0] for k in range(self.dim)], 2)  # nc, dim, dim
        det = np.linalg.det(J)
        self.meas = np.abs(det) / (1 if self.dim == 1 else 2)
        inv = np.linalg.inv(J)  # rows: grad of lambda_1..dim
        G = np.zeros((self.nc, self.nl, self.dim))
        G[:, 1:, :] = inv
        G[:, 0, :] = -inv.sum(1)
        self.G = G
        self.lam, self.w = _quad(self.dim)
        self.xq = np.einsum("ql,cld->cqd", self.lam, xc)
        self.wq = self.meas[:, None] * self.w[None, :]
        mids = [0.5 * (xc[:, i] + xc[:, j]) for i in range(self.nl) for j in range(i + 1, self.nl)]
        self.x2 = np.concatenate([xc, np.stack(mids, 1)], 1)
        self.phi2 = _p2(self.lam)
        # test gradient, with the coordinate factor
        W = np.broadcast_to(G[:, None, :, :], (self.nc, len(self.w), self.nl, self.dim)).copy()
        if mtype != "cartesian":
            r = self.xq[..., 0]
            fac = 1.0 if mtype == "cylindrical" else 2.0
            W[..., 0] -= fac * self.lam[None, :, :] / r[:, :, None]
        self.W = W
        # facets
        self.facets = {}
        for sid, c, lv in facets:
            self.facets.setdefault(sid, []).append((c, tuple(lv)))
        self.normals = {}
        for sid, lst in self.facets.items():
            for c, lv in lst:
                opp = [i for i in range(self.nl) if i not in lv][0]
                g = G[c, opp]
                self.normals[(c, lv)] = -g / np.linalg.norm(g)

    # fields are (nc, nl) arrays of cell-wise vertex values
    def at_q(self, f):
        return f @ self.lam.T

    def grad(self, f):
        return np.einsum("cl,cld->cd", f, self.G)

    def fn_q(self, f, t):
        """Degree-2 interpolation of a function at the quadrature points."""
        return fn.ev(f, self.x2, t) @ self.phi2.T

    def in_vol(self, ids):
        return np.isin(self.vol, list(ids))

    def facet_quad(self, sid):
        """List of (cell, local vertices, barycentric (nq, nl), weights*measure, points)."""
        out = []
        for c, lv in self.facets.get(sid, []):
            if self.dim == 1:
                lam = np.zeros((1, self.nl))
                lam[0, lv[0]] = 1
                w = np.array([1.0])
            else:
                x, wx = _gauss01(7)
                lam = np.zeros((len(x), self.nl))
                lam[:, lv[0]] = 1 - x
                lam[:, lv[1]] = x
                w = wx * np.linalg.norm(self.xc[c, lv[0]] - self.xc[c, lv[1]])
            out.append((c, lv, lam, w, lam @ self.xc[c]))
        return out

    def surface_vertices(self, sid):
        s = set()
        for c, lv in self.facets.get(sid, []):
            for l in lv:
                s.add(int(self.cells[c, l]))
        return sorted(s)

    def vertex_values(self, f):
        """Vertex values of a continuous field."""
        out = np.zeros(self.nv)
        out[self.cells] = f
        return out

    def from_vertices(self, v):
        return np.asarray(v)[self.cells]


class Acc:
    """Accumulates a residual and the magnitude of its terms, per vertex (CG) or per cell (DG)."""

    def __init__(self, geo, dg=False):
        self.g, self.dg = geo, dg
        shape = (geo.nc, geo.nl)
        self.r = np.zeros(shape)
        self.m = np.zeros(shape)

    def vol(self, val, mask=None):
        """+ int val phi_i dx, val (nc, nq)"""
        c = np.einsum("cq,cq,ql->cl", self.g.wq, val, self.g.lam)
        if mask is not None:
            c = c * mask[:, None]
        self.r += c
        self.m += np.abs(c)

    def flux(self, vec, mask=None):
        """+ int vec . W_i dx, vec (nc, nq, dim)"""
        c = np.einsum("cq,cqd,cqld->cl", self.g.wq, vec, self.g.W)
        if mask is not None:
            c = c * mask[:, None]
        self.r += c
        self.m += np.abs(c)

    def facet(self, c, lam, w, val):
        v = (w * val) @ lam
        self.r[c] += v
        self.m[c] += np.abs(v)

    def done(self):
        if self.dg:
            return self.r, self.m
        r = np.zeros(self.g.nv)
        m = np.zeros(self.g.nv)
        np.add.at(r, self.g.cells, self.r)
        np.add.at(m, self.g.cells, self.m)
        return r, m


def arr(pre, E, T):
    return pre * np.exp(-E / KB / T)


class Model:
    """The documented model for a scenario (see scenario.py for the data)."""

    def __init__(self, sc, geo):
        self.sc, self.g = sc, geo
        self.mats = sc["mats"]
        self.chem = sc["settings"].get("chemical_pot", False)
        self.soret = sc["settings"].get("soret", False)
        self.trap_dg = sc["settings"].get("traps_el", "CG") == "DG"
        self.tr = sc["settings"].get("transient", True)
        self.mask = [geo.in_vol(m["ids"]) for m in self.mats]

    # ------------------------------------------------------------ concentrations
    def conc_q(self, th, T, mi):
        """concentration at quadrature points in material mi"""
        g, m = self.g, self.mats[mi]
        thq = g.at_q(th)
        if not self.chem:
            return thq
        S = arr(m["S_0"], m["E_S"], g.at_q(T))
        return thq * S if m["law"] == "sievert" else thq**2 * S

    def grad_conc_q(self, th, T, mi):
        g, m = self.g, self.mats[mi]
        gth = g.grad(th)[:, None, :]
        if not self.chem:
            return np.broadcast_to(gth, (g.nc, len(g.w), g.dim))
        Tq = g.at_q(T)
        S = arr(m["S_0"], m["E_S"], Tq)
        gS = (S * m["E_S"] / KB / Tq**2)[..., None] * g.grad(T)[:, None, :]
        thq = g.at_q(th)[..., None]
        if m["law"] == "sievert":
            return S[..., None] * gth + thq * gS
        return 2 * thq * S[..., None] * gth + thq**2 * gS

    def conc_point(self, th, T, c):
        """concentration from potential at points of cell c"""
        if not self.chem:
            return th
        m = self.mat_of_cell(c)
        S = arr(m["S_0"], m["E_S"], T)
        return th * S if m["law"] == "sievert" else th**2 * S

    def mat_of_cell(self, c):
        for m, k in zip(self.mats, self.mask):
            if k[c]:
                return m
        raise KeyError(c)

    def mat_index(self, mid):
        for i, m in enumerate(self.mats):
            if mid == m["name"]:
                return i
        raise KeyError(mid)

    def trap_parts(self, tr):
        """[(material index, k_0, E_k, p_0, E_p, density or None)]"""
        out = []
        for i, name in enumerate(tr["mats"]):
            if tr.get("lists"):
                out.append((self.mat_index(name), tr["k_0"][i], tr["E_k"][i], tr["p_0"][i], tr["E_p"][i], tr["density"][i]))
            else:
                d = tr.get("density")
                out.append((self.mat_index(name), tr["k_0"], tr["E_k"], tr["p_0"], tr["E_p"], d))
        return out

    def exchange_q(self, st, prev, it, part, t):
        """trapping - detrapping rate of trap it in a material, at quadrature points"""
        g = self.g
        mi, k0, Ek, p0, Ep, dens = part
        Tq = g.at_q(st["T"])
        c = self.conc_q(st["mob"], st["T"], mi)
        ct = g.at_q(st["traps"][it])
        if dens is None:
            n = g.at_q(prev["dens"][it])
        else:
            n = g.fn_q(dens, t)
        return arr(k0, Ek, Tq) * c * (n - ct) - arr(p0, Ep, Tq) * ct

    def vols(self, src):
        v = src["volume"]
        return v if isinstance(v, list) else [v]

    def field_index(self, f):
        if f in ("0", 0, "solute", "mobile"):
            return 0
        return int(f)

    # ------------------------------------------------------------ residuals of a step
    def residuals(self, prev, st, dt, t):
        """dict name -> (residual, magnitude, free mask)"""
        g = self.g
        out = {}
        Tq = g.at_q(st["T"])
        mob = Acc(g)
        for mi, m in enumerate(self.mats):
            k = self.mask[mi]
            c = self.conc_q(st["mob"], st["T"], mi)
            if self.tr:
                cn = self.conc_q(prev["mob"], prev["T"], mi)
                mob.vol(c / dt, k)
                mob.vol(-cn / dt, k)
            D = arr(m["D_0"], m["E_D"], Tq)
            gc = self.grad_conc_q(st["mob"], st["T"], mi)
            mob.flux(D[..., None] * gc, k)
            if self.soret:
                Q = self.prop_q(m["Q"], Tq)
                mob.flux((D * Q * c / (KB * Tq**2))[..., None] * g.grad(st["T"])[:, None, :], k)
        traps = [Acc(g, self.trap_dg) for _ in self.sc["traps"]]
        for it, tr in enumerate(self.sc["traps"]):
            a = traps[it]
            parts = self.trap_parts(tr)
            if self.tr:
                a.vol(g.at_q(st["traps"][it]) / dt)
                a.vol(-g.at_q(prev["traps"][it]) / dt)
            else:
                inside = np.zeros(g.nc, bool)
                for p in parts:
                    inside |= self.mask[p[0]]
                a.vol(g.at_q(st["traps"][it]), ~inside)
            for p in parts:
                k = self.mask[p[0]]
                mi, k0, Ek, p0, Ep, dens = p
                c = self.conc_q(st["mob"], st["T"], mi)
                ct = g.at_q(st["traps"][it])
                n = g.at_q(prev["dens"][it]) if dens is None else g.fn_q(dens, t)
                f1 = arr(k0, Ek, Tq) * c * (n - ct)
                f2 = arr(p0, Ep, Tq) * ct
                for acc, s in ((mob, 1), (a, -1)):
                    acc.vol(s * f1, k)
                    acc.vol(-s * f2, k)
        # sources and decay
        for src in self.sc["sources"]:
            k = g.in_vol(self.vols(src))
            if "decay" in src:
                fields = range(len(traps) + 1) if src["field"] == "all" else [self.field_index(src["field"])]
                for fi in fields:
                    if fi == 0:
                        val = np.zeros_like(Tq)
                        for mi in range(len(self.mats)):
                            val = np.where(self.mask[mi][:, None], self.conc_q(st["mob"], st["T"], mi), val)
                        mob.vol(src["decay"] * val, k)
                    else:
                        traps[fi - 1].vol(src["decay"] * g.at_q(st["traps"][fi - 1]), k)
            elif src["field"] != "T":
                fi = self.field_index(src["field"])
                acc = mob if fi == 0 else traps[fi - 1]
                acc.vol(-g.fn_q(src["value"], t), k)
        # boundary terms
        dir_mob, dir_traps = set(), [set() for _ in traps]
        isk = 0
        for bc in self.sc["bcs"]:
            if bc["field"] == "T":
                continue
            fi = self.field_index(bc["field"])
            if bc["kind"] in DIRICHLET:
                for s in bc["surfaces"]:
                    vs = g.surface_vertices(s)
                    if fi == 0:
                        dir_mob.update(vs)
                    else:
                        dir_traps[fi - 1].update(vs)
                continue
            for s in bc["surfaces"]:
                for c, lv, lam, w, pts in g.facet_quad(s):
                    Tp = lam @ st["T"][c]
                    cp = self.conc_point(lam @ st["mob"][c], Tp, c)
                    if bc["kind"] == "sk":
                        cs, csn = st["sk"][isk], prev["sk"][isk] if prev is not None else 0.0
                        pv = fn.ev(bc["J"], pts, t)
                        k_sb = bc["k_sb"] * np.exp(-bc.get("E_sb", 0.0) / KB / Tp)
                        k_bs = bc["k_bs"] * np.exp(-bc.get("E_bs", 0.0) / KB / Tp)
                        vs = pv if bc.get("number") else pv * (1 - cs / bc["n_surf"])
                        if bc.get("full"):
                            q = fn.ev(bc["q"], pts, t)
                            k_sb = k_sb * q * (1 + bc["a"] * cs / bc["n_surf"])
                            k_bs = k_bs * (q + bc["d"] * cp / bc["n_IS"])
                            vs = pv * ((1 - cs / bc["n_surf"]) ** 2 - bc["a"] * q * cp / bc["n_IS"])
                        Jsb = k_sb * cs * (1 - cp / bc["n_IS"])
                        Jbs = k_bs * cp * (1 - cs / bc["n_surf"])
                        if self.tr:
                            cpn = self.conc_point(lam @ prev["mob"][c], lam @ prev["T"][c], c)
                            mob.facet(c, lam, w, bc["lam"] * cp / dt)
                            mob.facet(c, lam, w, -bc["lam"] * cpn / dt)
                        mob.facet(c, lam, w, Jbs)
                        mob.facet(c, lam, w, -Jsb)
                        terms = [-vs, -Jbs, Jsb]
                        if self.tr:
                            terms += [np.array([cs / dt]), np.array([-csn / dt])]
                        out["sk%d" % isk] = (np.array([float(sum(np.sum(w * q) for q in terms))]),
                                             np.array([float(sum(abs(np.sum(w * q)) for q in terms))]),
                                             np.array([True]))
                    else:
                        for val in self.h_flux(bc, pts, Tp, cp, t):
                            mob.facet(c, lam, w, -val)
                if bc["kind"] == "sk":
                    isk += 1
        free = np.ones(g.nv, bool)
        free[list(dir_mob)] = False
        r, m = mob.done()
        out["mob"] = (r, m, free)
        for it, a in enumerate(traps):
            r, m = a.done()
            if self.trap_dg:
                fr = ~np.isin(g.cells, list(dir_traps[it]))
            else:
                fr = np.ones(g.nv, bool)
                fr[list(dir_traps[it])] = False
            out["trap%d" % (it + 1)] = (r, m, fr)
        # created trap densities
        for it, tr in enumerate(self.sc["traps"]):
            if tr["kind"] == "trap" or not self.tr:
                continue
            a = Acc(g)
            n, nn = g.at_q(st["dens"][it]), g.at_q(prev["dens"][it])
            a.vol(n / dt)
            a.vol(-nn / dt)
            P = {k: g.fn_q(v, t) for k, v in tr["prm"].items()}
            if tr["kind"] == "neutron":
                a.vol(-P["phi"] * P["K"])
                a.vol(P["phi"] * P["K"] * n / P["n_max"])
                a.vol(P["A_0"] * np.exp(-P["E_A"] / (KB * Tq)) * n)
            else:
                for s in "ab":
                    e = P["phi_0"] * P["eta_" + s] * P["f_" + s]
                    a.vol(-e)
                    a.vol(e * n / P["n_%smax" % s])
            r, m = a.done()
            out["dens%d" % (it + 1)] = (r, m, np.ones(g.nv, bool))
        return out

    def h_flux(self, bc, pts, T, c, t):
        """terms of the inward flux of a hydrogen flux condition"""
        k = bc["kind"]
        if k == "flux":
            return [fn.ev(bc["value"], pts, t)]
        if k == "recomb":
            return [-fn.ev(bc["Kr_0"], pts, t) * np.exp(-fn.ev(bc["E_Kr"], pts, t) / KB / T) * c ** bc["order"]]
        if k == "dissoc":
            return [fn.ev(bc["Kd_0"], pts, t) * np.exp(-fn.ev(bc["E_Kd"], pts, t) / KB / T) * fn.ev(bc["P"], pts, t)]
        if k == "mass":
            h = fn.ev(bc["h"], pts, t)
            return [-h * c, h * fn.ev(bc["ext"], pts, t)]
        if k == "custom_flux":
            p, q, w = user_prms(bc, pts, t)
            return [p * T * 1e-3 * q, -bc.get("lin", 0.3) * w * c, -bc.get("cross", 0.1) * p * c]
        raise KeyError(k)

    def prop_q(self, p, Tq):
        """property a + b*T"""
        return p[0] + p[1] * Tq

    def heat_residual(self, prev, st, dt, t, transient):
        g = self.g
        a = Acc(g)
        Tq = g.at_q(st["T"])
        gT = g.grad(st["T"])[:, None, :]
        for mi, m in enumerate(self.mats):
            k = self.mask[mi]
            if transient:
                rc = self.prop_q(m["rho"], Tq) * self.prop_q(m["cp"], Tq)
                a.vol(rc * Tq / dt, k)
                a.vol(-rc * g.at_q(prev["T"]) / dt, k)
            a.flux(self.prop_q(m["cond"], Tq)[..., None] * gT, k)
        for src in self.sc["sources"]:
            if src.get("field") == "T":
                a.vol(-g.fn_q(src["value"], t), g.in_vol(self.vols(src)))
        dirv = set()
        for bc in self.sc["bcs"]:
            if bc["field"] != "T":
                continue
            if bc["kind"] in DIRICHLET:
                for s in bc["surfaces"]:
                    dirv.update(g.surface_vertices(s))
                continue
            for s in bc["surfaces"]:
                for c, lv, lam, w, pts in g.facet_quad(s):
                    Tp = lam @ st["T"][c]
                    if bc["kind"] == "flux":
                        vals = [fn.ev(bc["value"], pts, t)]
                    elif bc["kind"] == "conv":
                        h = fn.ev(bc["h"], pts, t)
                        vals = [-h * Tp, h * fn.ev(bc["ext"], pts, t)]
                    elif bc["kind"] == "custom_flux":
                        p, q, v = user_prms(bc, pts, t)
                        vals = [p * q, -2e-3 * p * v * Tp]
                    else:
                        raise KeyError(bc["kind"])
                    for v in vals:
                        a.facet(c, lam, w, -v)
        r, m = a.done()
        free = np.ones(g.nv, bool)
        free[list(dirv)] = False
        return r, m, free

    # ------------------------------------------------------------ imposed values
    def imposed(self, st, t):
        """yields (bc, surface, vertex, expected value, actual value)"""
        g = self.g
        first = {}
        for c in range(g.nc):
            for l in range(g.nl):
                first.setdefault(int(g.cells[c, l]), []).append((c, l))
        # a vertex shared by two surfaces with different conditions belongs to either
        shared = {}
        for bc in self.sc["bcs"]:
            if bc["kind"] in DIRICHLET:
                for s in bc["surfaces"]:
                    for v in g.surface_vertices(s):
                        shared.setdefault((str(bc["field"]), v), set()).add(s)
        for bc in self.sc["bcs"]:
            if bc["kind"] not in DIRICHLET:
                continue
            for s in bc["surfaces"]:
                cells_on = {}
                for c, lv in g.facets.get(s, []):
                    for l in lv:
                        cells_on.setdefault(int(g.cells[c, l]), []).append((c, l))
                for v, lst in sorted(cells_on.items()):
                    if len(shared[(str(bc["field"]), v)]) > 1:
                        continue
                    mats = {self.mat_of_cell(c)["name"] for c, _ in first[v]}
                    c, l = lst[0]
                    x = g.x[v][None, :]
                    Tv = st["T"][c, l]
                    exp = self.imposed_value(bc, x, Tv, t)
                    if bc["field"] == "T":
                        act = Tv
                    else:
                        fi = self.field_index(bc["field"])
                        if fi == 0:
                            if self.chem and len(mats) > 1:
                                continue
                            act = self.conc_point(st["mob"][c, l], Tv, c)
                        else:
                            act = st["traps"][fi - 1][c, l]
                    yield bc, s, v, float(exp), float(act)

    def imposed_value(self, bc, x, T, t):
        k = bc["kind"]
        e = lambda f: float(fn.ev(f, x, t)[0])
        if k == "dir":
            return e(bc["value"])
        if k == "sieverts":
            return arr(bc["S_0"], bc["E_S"], T) * e(bc["P"]) ** 0.5
        if k == "henrys":
            return arr(bc["H_0"], bc["E_H"], T) * e(bc["P"])
        if k == "imp":
            D = arr(bc["D_0"], bc["E_D"], T)
            v = e(bc["phi"]) * e(bc["R_p"]) / D
            if bc.get("Kr_0") is not None:
                Kr = arr(bc["Kr_0"], bc["E_Kr"], T)
                add = e(bc["phi"])
                if bc.get("Kd_0") is not None:
                    add += arr(bc["Kd_0"], bc["E_Kd"], T) * e(bc["P"])
                v += (add / Kr) ** 0.5
            return v
        if k == "custom_dir":
            one = fn.const(1.0)
            return 1e-3 * T * e(bc["p"]) * e(bc.get("q", one)) + bc.get("add", 0.2) * e(bc.get("w", one))
        raise KeyError(k)

    # ------------------------------------------------------------ exported fields
    def project_dg(self, val_q, mask=None):
        """cell-wise L2 projection on P1 of values at quadrature points"""
        g = self.g
        M = np.einsum("q,qi,qj->ij", g.w, g.lam, g.lam)
        b = np.einsum("q,cq,qi->ci", g.w, val_q, g.lam)
        return np.linalg.solve(M, b.T).T

    def fields(self, st):
        """exported fields as cell-wise vertex values"""
        g = self.g
        if self.chem:
            q = np.zeros((g.nc, len(g.w)))
            for mi in range(len(self.mats)):
                q = np.where(self.mask[mi][:, None], self.conc_q(st["mob"], st["T"], mi), q)
            mobile = self.project_dg(q)
        else:
            mobile = st["mob"]
        out = {"solute": mobile, "0": mobile, "T": st["T"]}
        ret = mobile.copy()
        for i, ct in enumerate(st["traps"]):
            out[str(i + 1)] = ct
            ret = ret + ct
        out["retention"] = ret
        return out

    def quantity(self, q, st, fields=None):
        """value of a derived quantity described by q = {kind, field, volume|surface|x, ...}"""
        g = self.g
        fields = fields or self.fields(st)
        kind = q["kind"]
        if kind == "AdsorbedHydrogen":
            return st["sk"][q["sk"]]
        f = fields[str(q["field"])]
        r = 1.0
        pw = 0
        if kind.endswith("Cylindrical"):
            pw = 1
        elif kind.endswith("Spherical"):
            pw = 2
        if kind == "AverageSurfaceSpherical":
            pw = 0
        base = kind.replace("Cylindrical", "").replace("Spherical", "")
        ang = 1.0
        if kind.endswith("Cylindrical") and not base.startswith("Average"):
            a0, a1 = q.get("azimuth", (0, 2 * np.pi))
            ang = a1 - a0
        if kind.endswith("Spherical") and not base.startswith("Average"):
            if base == "SurfaceFlux":
                a0, a1 = q.get("azimuth", (0, np.pi))
                p0, p1 = q.get("polar", (-np.pi, np.pi))
                ang = (p1 - p0) * (np.cos(a0) - np.cos(a1))
            else:
                a0, a1 = q.get("azimuth", (0, 2 * np.pi))
                p0, p1 = q.get("polar", (0, np.pi))
                ang = (a1 - a0) * (np.cos(p0) - np.cos(p1))
        if base in ("TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume"):
            k = g.in_vol([q["volume"]])
            if base == "MaximumVolume":
                return float(f[k].max())
            if base == "MinimumVolume":
                return float(f[k].min())
            wt = g.xq[..., 0] ** pw
            tot = float((g.wq * g.at_q(f) * wt)[k].sum())
            if base == "TotalVolume":
                return tot * ang
            return tot / float((g.wq * wt)[k].sum())
        if base in ("TotalSurface", "AverageSurface", "SurfaceFlux", "HydrogenFlux", "ThermalFlux"):
            num = den = 0.0
            for c, lv, lam, w, pts in g.facet_quad(q["surface"]):
                wt = pts[:, 0] ** pw
                if base in ("TotalSurface", "AverageSurface"):
                    num += float((w * wt * (lam @ f[c])).sum())
                    den += float((w * wt).sum())
                else:
                    m = self.mat_of_cell(c)
                    n = g.normals[(c, lv)]
                    Tp = lam @ st["T"][c]
                    if str(q["field"]) == "T":
                        pr = m["cond"][0] + m["cond"][1] * Tp
                    else:
                        pr = arr(m["D_0"], m["E_D"], Tp)
                    gr = float(np.einsum("l,ld,d->", f[c], g.G[c], n))
                    num += float((w * wt * pr * gr).sum())
                    if self.soret and str(q["field"]) != "T":
                        gT = float(np.einsum("l,ld,d->", st["T"][c], g.G[c], n))
                        Q = m["Q"][0] + m["Q"][1] * Tp
                        num += float((w * wt * pr * (lam @ f[c]) * Q / (KB * Tp**2) * gT).sum())
            if base == "AverageSurface":
                return num / den
            return num * ang
        if base == "PointValue":
            x = np.asarray(q["x"], float)
            for c in range(g.nc):
                l = np.concatenate([[0], (x - g.xc[c, 0]) @ g.G[c, 1:].T])
                l[0] = 1 - l[1:].sum()
                if (l >= -1e-12).all():
                    return float(l @ f[c])
            raise ValueError("point outside")
        raise KeyError(kind)




def user_prms(bc, pts, t):
    one = fn.const(1.0)
    return [fn.ev(bc.get(k, one), pts, t) for k in ("p", "q", "w")]


DIRICHLET = ("dir", "sieverts", "henrys", "imp", "custom_dir")
