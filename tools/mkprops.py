#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A transient run ends exactly at the final time, in bounded steps",
 "A transient run either raises an error or returns with its last accepted time equal to the requested final time (to the 1e-5 relative tolerance the code uses for times); accepted times start above zero, strictly increase and never go beyond the final time. Once the nonlinear solver converges in at most four iterations at every call, the run finishes in a bounded number of steps. This holds for any initial stepsize, including one larger than the final time, and whatever the wall clock shows.",
 ["schedules", "fault_sequences", "inputs"],
 "every sequence of solver iteration counts and solver failures, every stepsize configuration (fixed, adaptive, capped, with milestones), every final time and clock behaviour",
 "the tests run a few fixed stepsizes with a solver that always converges; the sequences of iteration counts and failures that drive the stepsize are unbounded",
 ["festim/generic_simulation.py", "festim/stepsize.py", "festim/h_transport_problem.py"],
 [("time loop and clamp to the final time", "festim/generic_simulation.py run_transient/iterate"), ("stepsize adaptation", "festim/stepsize.py adapt")],
 ["times of the accepted steps seen by the exports", "return or exception of run"])
prop("C02", "Every milestone and every requested text-export time is computed",
 "Every milestone, and every time requested for a text export, that lies after zero and not after the final time is the time of an accepted step (to 1e-5 relative), whatever stepsizes the solver's convergence history produces, including a first step that would jump over it and milestones lying arbitrarily close together above that tolerance.",
 ["schedules", "fault_sequences", "inputs"],
 "every milestone set, every initial stepsize and every history of solver iteration counts and failures",
 "tests check single calls of the stepsize object and one or two runs with regular stepsizes",
 ["festim/stepsize.py", "festim/generic_simulation.py", "festim/exports/txt_export.py"],
 [("stepsize clipped to the next milestone", "festim/stepsize.py adapt/next_milestone"), ("export times added to the milestones", "festim/generic_simulation.py initialise")],
 ["times of the accepted steps", "milestones given by the user"])
prop("C03", "The stepsize follows the documented control law",
 "With an adaptive stepsize, the step after an accepted one is the last one multiplied by the change ratio if the solver took at most four iterations and divided by it otherwise, then limited to the maximum stepsize at the current time; it is shortened further only to land on the next milestone or the final time. A failed solve divides the stepsize by the ratio and the step is attempted again; the run stops with an error, and not otherwise, when the reduced stepsize falls below the minimum or no minimum was given. Without adaptivity no step is ever longer than the initial stepsize, and it is shortened only to land on a milestone or the final time.",
 ["schedules", "fault_sequences", "configurations"],
 "every sequence of (iteration count, converged or not) returned by the solver and every combination of ratio, maximum stepsize (constant or function of time), minimum stepsize and milestones",
 "the tests call the adaptation once with hand-picked arguments; the law is about the whole trajectory, including how it interacts with retries, milestones and the final time",
 ["festim/stepsize.py", "festim/h_transport_problem.py", "festim/generic_simulation.py"],
 [("adaptation of the stepsize", "festim/stepsize.py adapt"), ("retry loop", "festim/h_transport_problem.py update")],
 ["accepted times", "iteration counts reported by the solver"])
prop("C04", "A failed solver attempt leaves no trace in the results",
 "When a solve fails and the step is attempted again with a shorter stepsize, the accepted state is the same as if only the shorter step had been attempted: nothing the failed attempts wrote (concentrations, not-a-number values, temperature, trap densities, times, derived quantities, exported records) remains. The accepted time, the temperature, the time-dependent inputs and the integrated interval all belong to the shorter step.",
 ["fault_sequences", "schedules", "histories"],
 "every placement and number of solver failures in a run, every corruption of the solution vector by the failing solver, every kind of problem",
 "no test makes the solver fail in the middle of a run; a failure happens only for hard physical inputs and its consequences are silent",
 ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/stepsize.py", "festim/temperature/temperature.py", "festim/temperature/temperature_solver.py"],
 [("saved solution restored before each attempt", "festim/h_transport_problem.py update")],
 ["fields and times of each accepted step", "exported files"])
prop("C05", "Hydrogen is conserved over every accepted step",
 "Over every accepted step, the change of the total hydrogen inventory (mobile + trapped + adsorbed, weighted by the coordinate system) equals the stepsize times the net inflow of the sources, decay and boundary fluxes evaluated at the end of the step, to solver and discretisation accuracy. This holds with any number of materials and traps, with changing temperature and solubility, and whatever stepsizes, retries or failures happened before.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every stepsize history, every failure placement, every combination of materials, traps, sources, decays, fluxes, surface kinetics and temperature history without an imposed surface concentration",
 "the tests compare a handful of runs with analytical solutions at loose tolerances; a small leak per retry, per temperature change or per interface is invisible there",
 ["festim/concentration/mobile.py", "festim/concentration/theta.py", "festim/concentration/traps/trap.py", "festim/h_transport_problem.py", "festim/boundary_conditions/fluxes/surface_kinetics.py"],
 [("trapping terms appear with opposite signs in the mobile and trap equations", "festim/concentration/mobile.py, festim/concentration/traps/trap.py"), ("previous solution updated once per accepted step", "festim/h_transport_problem.py")],
 ["inventories computed from the exported fields"])
prop("C06", "Boundary conditions hold at every accepted step",
 "At every accepted step each surface carries exactly the condition the user gave, evaluated at that step's time and temperature: imposed values, Sieverts, Henry, implantation and user-defined surface concentrations are the concentration at that surface (also when the unknown is the chemical potential), and fixed, recombination, dissociation, mass-transfer, convective and user-defined fluxes are the flux through it. Surfaces with no condition carry no flux, and a condition on one surface or field never affects another.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every combination of conditions, surfaces, fields and time- and temperature-dependent parameters, at every step of every stepsize history including retried steps",
 "tests evaluate each condition once, in isolation, at one time; that it is refreshed at the accepted time and temperature on every step of a run is not tested",
 ["festim/boundary_conditions", "festim/h_transport_problem.py", "festim/concentration/mobile.py", "festim/temperature/temperature_solver.py"],
 [("expressions updated to the current time before each solve", "festim/h_transport_problem.py update, festim/helpers.py update_expressions"), ("strong enforcement of surface values", "festim/boundary_conditions/dirichlets")],
 ["surface values and fluxes of the exported fields"])
prop("C07", "Every accepted step solves the transport equations over its own interval",
 "Every accepted step is a solution of the documented diffusion-trapping equations (Fick, Soret, trapping and detrapping, sources, decay, boundary terms; Cartesian, cylindrical or spherical) integrated from the previous accepted state over exactly the elapsed time, with all material properties, sources, trap densities and fluxes taken at the end of that interval and in the right subdomains. The first step starts from the given initial conditions. A steady-state run solves the same equations without the time derivative.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every stepsize and failure history and every supported combination of physics, coordinates, materials and time- and space-dependent inputs",
 "the tests check each term's symbolic form and a few manufactured solutions with constant stepsize; combinations of options with time-dependent inputs and changing stepsizes are not reached",
 ["festim/concentration/mobile.py", "festim/concentration/theta.py", "festim/concentration/traps/trap.py", "festim/sources", "festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/materials/materials.py", "festim/meshing/mesh_1d.py"],
 [("assembly of the variational form", "festim/h_transport_problem.py define_variational_problem"), ("update of time-dependent expressions", "festim/helpers.py update_expressions")],
 ["fields of each accepted step"])
prop("C08", "Traps fill, empty and are created by their own rate equations",
 "In every accepted step each trap, in each of its materials, exchanges hydrogen with the mobile population by its own trapping and detrapping rates and density for that material and that time, plus its own sources and decay, and is inert elsewhere. The density of extrinsic and neutron-induced traps advances once per accepted step by its creation and annealing law over exactly that step, with time-dependent parameters taken at that step's time, and starts from zero.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every stepsize and failure history; every number of traps, conglomerate traps, continuous or discontinuous trap elements, and time- and space-dependent densities and creation rates",
 "the tests check one trap's form and a constant-stepsize density evolution; the density update's place in the step, retries and time-dependent rates are not covered",
 ["festim/concentration/traps/trap.py", "festim/concentration/traps/traps.py", "festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/neutron_induced_trap.py", "festim/h_transport_problem.py"],
 [("trap forms", "festim/concentration/traps/trap.py"), ("extrinsic density solve after each accepted step", "festim/concentration/traps/traps.py solve_extrinsic_traps")],
 ["trap concentrations and densities of each accepted step"])
prop("C09", "Interfaces keep equal chemical potential while temperature changes",
 "With conservation of chemical potential, at every accepted step the exported mobile concentration on the two sides of every material interface corresponds to one potential (concentration over solubility, or its square root in a Henry material) at that step's temperature, the exported concentration is the potential times the solubility everywhere, and initial and imposed concentrations are honoured as concentrations. Hydrogen is neither created nor lost when solubilities change with temperature.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every sequence of materials and solubility laws, every temperature history (prescribed or solved) and every stepsize and failure history",
 "the tests use constant or steady temperatures and check single steps; the potential-concentration conversion involves the temperature of two successive steps",
 ["festim/concentration/theta.py", "festim/materials/materials.py", "festim/generic_simulation.py", "festim/boundary_conditions/dirichlets/dirichlet_bc.py", "festim/temperature"],
 [("potential to concentration conversion", "festim/concentration/theta.py"), ("previous temperature kept for the step", "festim/temperature")],
 ["exported concentration", "interface values"])
prop("C10", "The temperature used and exported belongs to the accepted step",
 "At every accepted step the temperature field is the prescribed one at that time, the one read from file, the steady heat solution, or the solution of the documented transient heat equation integrated from the previous accepted temperature over exactly the elapsed time with that step's heat sources and boundary conditions. The same field is used by the hydrogen problem and exported. A retried step does not advance the temperature twice.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every stepsize and failure history, every prescribed temperature, heat source, thermal property (constant or temperature-dependent) and thermal boundary condition",
 "tests run the heat problem alone or with constant stepsize and no failures",
 ["festim/temperature/temperature.py", "festim/temperature/temperature_solver.py", "festim/temperature/temperature_from_xdmf.py", "festim/generic_simulation.py", "festim/h_transport_problem.py"],
 [("temperature updated before the hydrogen solve", "festim/generic_simulation.py iterate"), ("rolled back on retry", "festim/h_transport_problem.py update")],
 ["temperature field of each accepted step"])
prop("C11", "Derived quantities describe the step they are stamped with",
 "Each recorded value of a derived quantity (totals, averages, extrema, fluxes, point values, adsorbed hydrogen, in each coordinate system) is that quantity of the fields of the accepted step whose time it carries, one record every N-th step starting with the first, in step order, in the per-quantity lists and in the table alike. The exported file holds one header and exactly the records known at the last export due by the requested cadence (at the end of the run by default).",
 ["schedules", "fault_sequences", "inputs", "configurations", "histories"],
 "every stepsize and failure history, every set of quantities, subdomains and cadences",
 "tests compute each quantity once on a hand-made function and check the cadence predicates alone",
 ["festim/exports/exports.py", "festim/exports/derived_quantities"],
 [("quantities computed on the post-processed fields", "festim/exports/exports.py write"), ("table and file", "festim/exports/derived_quantities/derived_quantities.py")],
 ["quantity data and times", "exported file"])
prop("C12", "Text exports hold the requested profiles at the requested times",
 "A text export holds the sorted coordinates and one column per requested time (every step if none is requested), each column being the field at that time and labelled with it, in time order and without duplicates or gaps, for every field and in any coordinate order of the mesh. The file on disk holds all columns due so far, or only appears at the last requested time if asked to write at the end. Values at both sides of a material interface are kept where the field is discontinuous.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every stepsize and failure history, every set of export times, fields, filters and write modes",
 "tests export a few columns from runs with regular stepsizes",
 ["festim/exports/txt_export.py", "festim/exports/exports.py", "festim/generic_simulation.py"],
 [("column appended when the time is due", "festim/exports/txt_export.py write"), ("times added to milestones", "festim/generic_simulation.py initialise")],
 ["text file content"])
prop("C13", "XDMF exports hold each due step once and read back exactly",
 "An XDMF export holds exactly the steps due by its mode (every N-th step starting with the first, or only the last), in order, each stamped with its time, and reading a checkpoint back returns the field of that step, for concentrations, temperature, retention and trap densities (per material). Nothing from failed attempts or earlier runs is in the file.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "every stepsize and failure history, every mode, field, element type and number of exports sharing a run",
 "tests check the mode predicate and one or two written files",
 ["festim/exports/xdmf_export.py", "festim/exports/trap_density_xdmf.py", "festim/exports/exports.py"],
 [("append flag and mode", "festim/exports/xdmf_export.py"), ("projection of non-function fields", "festim/exports/exports.py write")],
 ["XDMF files read back"])
prop("C14", "Initialising again gives the run a fresh simulation would give",
 "After any history - completed runs, runs aborted by a solver failure, an input/output error or an interruption at any point, repeated initialisation, or changed settings, stepsize, mesh, materials, boundary conditions, initial conditions, sources, traps, temperature or exports - initialising the simulation and running it gives the same times, fields, derived quantities and files as a newly built simulation with the same inputs.",
 ["histories", "fault_sequences", "crash_points"],
 "every sequence of initialise, run, abort and modify operations, every abort point",
 "tests initialise once, or twice without comparing the results with a fresh object",
 ["festim/generic_simulation.py", "festim/exports", "festim/h_transport_problem.py", "festim/concentration", "festim/temperature", "festim/stepsize.py"],
 [("state rebuilt by initialise", "festim/generic_simulation.py initialise")],
 ["everything a run produces"])
prop("C15", "A killed run restarts from its last checkpoint on the same trajectory",
 "If the process is killed at any instant, every export record completed before that instant is readable afterwards in its file (other than a file being written at that instant). A new simulation started from the last checkpointed concentrations and temperature continues on the trajectory of the uninterrupted run over the remaining steps.",
 ["crash_points", "schedules", "configurations"],
 "every kill instant, including inside exports and solves, every checkpoint cadence and every problem without created traps",
 "no test kills a run or restarts from its files in a multi-field problem",
 ["festim/exports/xdmf_export.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/exports/txt_export.py", "festim/concentration/concentration.py", "festim/concentration/theta.py", "festim/initial_condition.py", "festim/temperature/temperature_solver.py"],
 [("files flushed or closed after each write", "festim/exports"), ("initial conditions read from checkpoints", "festim/concentration/concentration.py get_comp")],
 ["files after the kill", "fields of the restarted run"])
prop("C16", "A failing write is reported and corrupts nothing else",
 "If a text or table export cannot be written (disk full, permission or device error, at any step and any byte), the run stops with an error naming the failure instead of returning; records already in memory and all other files are as they would be without the fault. With no fault, exports never change the computed solution.",
 ["fault_sequences", "crash_points", "configurations"],
 "every failing file operation (open, write, close, directory creation), every step and every mix of exports",
 "no test makes a write fail",
 ["festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/exports/txt_export.py"],
 [("exceptions propagate through run", "festim/generic_simulation.py run_post_processing")],
 ["exception of run", "files and in-memory records after the fault"])
prop("C17", "A solver failure is never reported as success",
 "If the hydrogen, heat or trap-density solver fails and the failure cannot be recovered by a shorter step, the run raises an error; it never returns normally, never loops forever and never records the failed state as an accepted time step. A failure in a steady-state run raises an error.",
 ["fault_sequences", "schedules", "configurations"],
 "every solver (hydrogen, heat, trap density), every step, every failure kind (no convergence, exception, not-a-number result), every stepsize configuration",
 "tests reach one failing steady-state solve and single calls of the adaptation",
 ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/stepsize.py", "festim/temperature/temperature_solver.py", "festim/concentration/traps/traps.py", "festim/concentration/traps/extrinsic_trap.py"],
 [("error on non-convergence", "festim/generic_simulation.py run_steady, festim/h_transport_problem.py update"), ("solver parameters of heat and trap solvers", "festim/temperature/temperature_solver.py, festim/concentration/traps/extrinsic_trap.py")],
 ["exception of run", "records of the exports"])
prop("C18", "Simulations are isolated from each other and from the environment",
 "The results of a simulation are a function of its inputs only: interleaving the steps of several simulations in one process in any order, having run others before, the wall clock, the hash seed, the log level and the presence of further exports change neither its times, fields, derived quantities nor files.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the steps of several simulations sharing a process, every clock, every hash seed",
 "each test builds its own simulation; interference between two is never looked for",
 ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/exports", "festim/stepsize.py", "festim/helpers.py"],
 [("state held per object", "festim/generic_simulation.py")],
 ["everything each simulation produces"])
prop("C19", "Results do not depend on the number of MPI processes",
 "Running the same model on one or several MPI processes gives the same fields, derived quantities and files up to round-off.",
 ["configurations", "schedules"],
 "every number of processes and mesh partition",
 "the tests run on one process",
 ["festim/exports", "festim/h_transport_problem.py"],
 [("parallel assembly by the finite element library", "festim/h_transport_problem.py")])
prop("C20", "Invalid inputs are rejected when they are given",
 "Arguments of the wrong type or value (unknown fields, overlapping surface conditions, missing stepsize or final time, mismatched material borders, duplicate ids) raise an error before any step is computed.",
 ["inputs"],
 "every invalid argument",
 "the set of invalid arguments is unbounded, the tests sample it",
 ["festim/generic_simulation.py", "festim/materials/materials.py", "festim/exports", "festim/boundary_conditions"],
 [("validation in setters and initialise", "festim/generic_simulation.py check_boundary_conditions")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
