#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "C01": "seeded search over stepsize configurations and sequences of (iterations, failure) of a stubbed solver, plus real-solver runs; every run judged by the recorded times",
 "C02": "as C01, with milestones and text-export times; oracle: each due time is an accepted time",
 "C03": "as C01; oracle: an independent model of the control law replayed over the recorded solver results",
 "C04": "failures injected into the real solver; oracles: a fault-free twin driven through the same times, and the residual of every step",
 "C05": "real solver, random models and failures; oracle: inventories and fluxes integrated by an independent model",
 "C06": "as C05; oracle: imposed values at the step's time and temperature, residual at boundary vertices",
 "C07": "as C05; oracle: residual of an independent discretisation of the documented equations at every accepted step",
 "C08": "as C05; oracle: residuals of every trap and density equation",
 "C09": "as C05; oracle: potential on both sides of interfaces, imposed concentrations, inventories",
 "C10": "as C05; oracle: prescribed temperature or residual of the heat equation at every accepted step",
 "C11": "random exports, runs cut by solver faults; oracle: quantities recomputed from the recorded fields, tables and files",
 "C12": "as C11 for text exports; oracle: layout, columns and values recomputed",
 "C13": "as C11 for XDMF; oracle: due steps, times and fields read back",
 "C14": "histories of runs, aborted runs and changed inputs on one object; oracle: a fresh object in a fresh directory",
 "C15": "process killed at solver calls, steps and file operations (torn writes included); oracle: snapshots of the uninterrupted run, and a restarted run",
 "C16": "errors injected at file operations of text and table exports; oracle: snapshots of the fault-free run",
 "C17": "failures of every solver role, real and injected; oracle: outcome predicted from the solver history, residual of everything accepted",
 "C18": "seeded interleavings of several simulations and changed environments; oracle: the simulation alone",
}
NA = {
 "C19": "several MPI processes inside one simulated process would need a simulated MPI library under PETSc and dolfin; the ranks' message schedule cannot be put behind a seam here, and FESTIM itself contains no message passing",
 "C20": "a property of single calls with bad arguments: no schedule, time, fault or history for the simulator to vary; unit tests enumerate it",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": n}
                for p, n in NOTE.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
