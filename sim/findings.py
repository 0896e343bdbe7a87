"""Probes of the known findings: True while the finding is there.  Each is the one input that fails."""
import numpy as np


def _model(**kw):
    from .boot import festim as F

    m = F.Simulation(log_level=50)
    m.mesh = F.MeshFromVertices(np.linspace(0, 1, 6))
    m.materials = F.Material(1, 1.0, 0.05)
    m.T = 400
    m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1.0, field=0)]
    m.settings = F.Settings(1e-10, 1e-10, final_time=0.2, **kw)
    m.dt = F.Stepsize(0.1)
    return F, m


def surface_extremum():
    """MaximumSurface in a run"""
    F, m = _model()
    m.exports = [F.DerivedQuantities([F.MaximumSurface("solute", 2)])]
    m.initialise()
    try:
        m.run()
    except TypeError as e:
        return "surface_markers" in str(e)
    return False


def dg_trap_value():
    """imposed trapped concentration with discontinuous traps"""
    F, m = _model(traps_element_type="DG")
    m.traps = [F.Trap(1.0, 0.05, 1.0, 0.05, "m", 1.0)]
    m.materials = F.Material(1, 1.0, 0.05, name="m")
    m.boundary_conditions = [F.DirichletBC(surfaces=1, value=1.0, field=0), F.DirichletBC(surfaces=1, value=0.7, field=1)]
    q = F.PointValue(field="1", x=0.0)
    m.exports = [F.DerivedQuantities([q])]
    m.initialise()
    m.run()
    return bool(abs(q.data[-1] - 0.7) > 1e-3)


PROBES = {"surface_extremum": surface_extremum, "dg_trap_value": dg_trap_value}
