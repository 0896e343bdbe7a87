#!/usr/bin/env python3
"""Writes known-findings.json."""
import json, os
KNOWN = [
 ("C11", "surface_extremum", "MaximumSurface/MinimumSurface in a DerivedQuantities export: the run stops with TypeError: compute() missing 1 required positional argument: 'surface_markers' "
         "(input: sim/findings.py surface_extremum; the method also takes facet numbers for cell numbers, and the unit tests state that formula, so the repair would contradict them)"),
 ("C06", "dg_trap_value", "DirichletBC on a trap field with traps_element_type='DG' is not applied "
         "(input: sim/findings.py dg_trap_value; the generator does not draw this combination)"),
]
FIXED = """C01 b0571ed the first step went beyond the final time or over a milestone
C02 b0571ed the first step went over a milestone
C02 9e3ee05 a milestone within round-off of the current time hid the next one
C03 6e078b7 the stepsize was reduced twice after one failed solve
C17 7e6e779 a diverging solve with a fixed stepsize was attempted again for ever
C09 7ed72d9 the previous temperature was overwritten before the hydrogen problem was solved
C10 7ed72d9 the previous temperature was overwritten before the hydrogen problem was solved
C14 6695e4e the initial temperature was overwritten by the run
C04 e5da1df after a failed attempt the time advanced by another stepsize than the one solved
C08 01f6327 extrinsic trap densities advanced with a stale stepsize
C08 b522016 time-dependent parameters of extrinsic and neutron traps were not updated
C14 483d353 exports kept records of the previous run
C12 70fe1f4 exports to a bare file name failed
C13 98042df XDMF mode last wrote nothing in steady state
C06 aed6e92 CustomDirichlet with conservation of chemical potential imposed the potential
C06 1927ad7 FluxBC with field "0" was ignored
C06 de56527 DirichletBC with a field given as string failed with traps
C07 7bebfaa sources and traps in a material of several subdomains
C13 77ca076 density export of a trap with one density per material
C18 52fa71d default lists shared between simulations
C05 5c749e3 surface kinetics with conservation of chemical potential
C11 5b0f410 derived quantities of the retention in cylindrical and spherical coordinates
C14 33764a4 a radius of the previous mesh was kept
C14 486fe67 expressions kept the time of the previous run
C09 22e5af8 initial guess of the chemical potential with traps or surface kinetics
C03 647fff7 a fixed stepsize stayed shortened after a milestone
C12 db98b4a text export when a material covers several subdomains
C13 31fb230 the checkpoint of a component of a mixed function held wrong values
C14 bb17024 traps kept the materials of the previous initialisation
C15 b0fb7a8 restart from a discontinuous concentration with conservation of chemical potential
C14 852db08 a trap object used in another list of traps kept the id of the former list
C07 fbc2c35 initial condition of a trap whose id is not its position
C13 be72ff7 density export when no trap has the id 1
C09 90b95e6 the initial condition with conservation of chemical potential was lost on small meshes
C06 e83b64e solubility at surfaces and solubility-law markers were zero on small meshes
C13 0828627 the exported trap density was zero on small meshes
C14 f4e8061 changed tolerances of a heat transfer problem were ignored when initialised again
C14 d7884d1 milestones added for the text exports of a previous run were kept when the exports change""".split("\n")
d = {"known": [dict(zip(("property", "probe", "what"), k)) for k in KNOWN],
     "fixed": ["fixed: property=" + x for x in FIXED]}
json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w"), indent=1)
