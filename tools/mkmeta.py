#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, not by any check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


prop("C01", "Conservation of mass, momentum, energy and the advected scalar",
     "On a periodic domain the domain integral of every conserved variable stays constant through a whole run, for every "
     "order, interface flux, time scheme, enhancement and limiter choice. With open ends it changes exactly by the flux that "
     "enters and leaves. Limiting never changes a cell average.",
     ["inputs", "configurations", "histories"],
     "For every admissible field, order 0-8, number of cells, system, interface flux, enhancement, limiter, time scheme, CFL "
     "number and final time.",
     "Unit tests evaluate one residual and one or two steps of fixed initial conditions; a flux that is not shared by its two "
     "cells, or a limiter that shifts averages, only shows on other data.",
     ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/limiting.py", "dg1d/rk.py"],
     [("single-valued interface flux, alternating-sign face terms", "dg1d/dg.py add_interior_face_fluxes"),
      ("cell average kept by the reconstruction", "dg1d/limiting.py"), ("weighted stage sum", "dg1d/rk.py")],
     ["cell averages before and after residual, limiting and whole runs"],
     "Hypothesis property-based testing: conservation invariant over generated fields, configurations and runs",
     "Random search with shrinking; judged up to rounding (1e-10 of the flux scale).")

prop("C02", "Uniform flow and pressure/velocity equilibrium are preserved",
     "A uniform state stays uniform forever, with every order, interface flux, enhancement, limiter, boundary type and time "
     "scheme. A density variation carried in uniform velocity and pressure creates no velocity or pressure disturbance, as long "
     "as the physics is linear in it. A stationary contact discontinuity aligned with a face is kept exactly by the Roe and "
     "Godunov fluxes.",
     ["inputs", "configurations", "histories"],
     "For every gas state or scalar value, every density profile and configuration.",
     "Tests never check well-balancedness; only fixed sine and tube data are run.",
     ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/enhance.py", "dg1d/limiting.py"],
     [("consistency of the interface fluxes", "dg1d/euler_physics.py riemann_*"),
      ("weights that sum to one", "dg1d/enhance.py face_value"), ("quadrature exact for constants", "dg1d/basis.py")],
     ["residual and run outputs"],
     "Hypothesis property-based testing: invariants of equilibrium states over generated flows and runs",
     "Random search with shrinking; up to rounding (Godunov: its fixed-point tolerance).")

prop("C03", "Mirror, shift, unit and superposition symmetry",
     "The mirror image of a gas flow evolves as the mirror image, a periodically shifted field evolves as the shifted field, and "
     "changing the units of density and velocity changes the answer by exactly those units. For advection, sums and multiples "
     "of solutions are solutions. The statements cover the spatial operator and whole runs (mirror symmetry: unlimited runs).",
     ["inputs", "configurations", "histories"],
     "For every admissible field, order, interface flux, enhancement and boundary type.",
     "These are relations between two runs; no test relates runs, and left/right asymmetries hide in symmetric or one-way test "
     "data.",
     ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/enhance.py", "dg1d/solution.py"],
     [("left/right symmetric fluxes", "dg1d/euler_physics.py"), ("translation-invariant operator and ghosts",
                                                               "dg1d/dg.py, dg1d/solution.py apply_bc"),
      ("scale-free formulas", "dg1d/euler_physics.py")],
     ["residual, run outputs"],
     "Hypothesis metamorphic testing: transformed input against transformed output",
     "Random search with shrinking; up to rounding; Godunov up to its absolute pressure tolerance.")

prop("C04", "The spatial operator is the discontinuous Galerkin discretisation",
     "For any field, the computed rate of change of every coefficient equals that of the discontinuous Galerkin method with "
     "Legendre modes, Gauss quadrature of p+1 points and the chosen interface flux and enhancement. Both boundary types, both "
     "systems and all orders are included. The field itself is not changed by evaluating it.",
     ["inputs", "configurations"],
     "For every admissible field and configuration.",
     "Tests compare one initial condition at low order with stored numbers.",
     ["dg1d/dg.py", "dg1d/basis.py", "dg1d/solution.py", "dg1d/enhance.py"],
     [("volume integral, face terms, inverse mass matrix", "dg1d/dg.py residual"), ("basis tables", "dg1d/basis.py")],
     ["residual of the solver"],
     "Hypothesis differential testing against an independent reference discretisation",
     "Random search with shrinking against a reference written from the method's definition.")

prop("C05", "Rusanov and Roe fluxes, physical flux and fastest wave",
     "The Rusanov flux, the Roe flux with its entropy fix, the physical flux inside cells and the fastest wave speed equal their "
     "textbook definitions for every pair of states. They are consistent, mirror symmetric, local to each face and leave their "
     "inputs alone; Roe's flux is exact on isolated shocks and contacts, upwind in supersonic flow, and never accepts a sonic "
     "expansion shock.",
     ["inputs"],
     "For all states with positive density and pressure, ratio of specific heats 1.1 to 3, any number of faces.",
     "Tests use a dozen fixed state pairs with values stored from the code itself.",
     ["dg1d/euler_physics.py", "dg1d/advection_physics.py"],
     [("flux functions", "dg1d/euler_physics.py riemann_rusanov, riemann_roe, interior_flux, max_wave_speed"),
      ("upwind flux", "dg1d/advection_physics.py")],
     ["returned fluxes and speeds"],
     "Hypothesis differential and metamorphic testing against independent formulas",
     "Random search with shrinking over states spanning several decades.")

prop("C06", "Godunov flux is the flux of the exact Riemann solution",
     "The Godunov flux equals the physical flux of the exact Riemann solution on the interface, for every wave pattern and for "
     "states at and around sonic points. For strong rarefactions its iteration may refuse with an error, but a flux that is "
     "returned is never wrong. Each face is treated on its own.",
     ["inputs"],
     "For all pairs of positive states, ratio of specific heats 1.2 to 3, including single waves, equal, sonic, supersonic and "
     "rounding-close states.",
     "Tests sample a few patterns; the solver has about a dozen branches on wave type and wave direction that need targeted "
     "states (three defects were found here).",
     ["dg1d/euler_physics.py"],
     [("star-state iteration and wave sampling", "dg1d/euler_physics.py riemann_godunov")],
     ["returned flux"],
     "Hypothesis differential testing against an exact Riemann solver (bisection)",
     "Random search with generators aimed at each wave pattern and sonic boundary.")

prop("C08", "Every time integration scheme has its stated order",
     "Each scheme integrates smooth systems with the order in its name: one step satisfies every order condition up to that "
     "order, and multi-step errors shrink accordingly, also when the right-hand side depends on the time of the state it is "
     "given. The low-storage form and the default scheme are the classical fourth-order scheme.",
     ["inputs", "configurations"],
     "For all nine schemes and every smooth right-hand side (all rooted trees up to the order).",
     "Tests run two schemes on one linear problem; a wrong digit in a high-order table changes errors below what they see.",
     ["dg1d/rk.py", "dg1d/rk_coeffs.py"],
     [("coefficient tables", "dg1d/rk_coeffs.py"), ("stage loop", "dg1d/rk.py classic_rk, low_storage_rk4")],
     ["solution after integration of a stand-in right-hand side"],
     "Complete enumeration of rooted-tree order conditions plus Hypothesis-generated ODE systems against power series",
     "All order conditions are run through the real time loop; order conditions to 1e-12.")

prop("C09", "CFL-limited steps; outputs exactly when asked for",
     "Every step is at most the CFL step of the state it starts from, and the run ends exactly at the final time. Exactly the "
     "requested number of outputs is written, numbered from zero and evenly spaced in time, including when several fall within "
     "one step or rounding blurs the end. A run whose time step vanishes or is not a number stops at once with an error.",
     ["inputs", "configurations", "histories"],
     "For every field, CFL number, final time, number of outputs (at least two) and time scheme.",
     "Tests check one schedule; off-by-one and rounding corner cases depend on the ratio of step to output interval (a defect was "
     "found here).",
     ["dg1d/rk.py"],
     [("next step and output clipping", "dg1d/rk.py get_next_time_step, adjust_for_output"), ("output loop", "dg1d/rk.py")],
     ["output files, times and step counts in them, steps seen by the solver"],
     "Hypothesis property-based testing: schedule invariants over recorded runs, model of the clipping rule",
     "Random search with shrinking, ratio of step and output interval steered to corner cases.")

prop("C10", "Saved solutions load back identically and continue identically",
     "A saved output contains the exact coefficients, cell positions, time, step count and boundary types, and loading it gives "
     "that solution back bit for bit, whatever order the receiving object was made with. The loaded solution is fully usable: "
     "evaluating or continuing it gives what the original would. Sensor files list the flag of every interior cell.",
     ["inputs", "histories", "configurations"],
     "For every field including extreme doubles, order 0-9, mesh of at least two cells, time and step number.",
     "Tests load one stored file and compare a few numbers (two defects were found here).",
     ["dg1d/solution.py"],
     [("17+ digit text format with header", "dg1d/solution.py printer"), ("header parsing, mesh and matrix rebuild",
                                                                         "dg1d/solution.py loader")],
     ["files and loaded objects"],
     "Hypothesis round-trip and continuation testing with an independent file reader",
     "Random search with shrinking; bit-exact for data.")

prop("C11", "A deck means what it says",
     "Reading a deck yields exactly the value under each heading, in any order and with blank or unknown lines in between, and "
     "the documented default for every heading left out; a heading given again replaces its earlier value. Writing a deck and reading it back gives the same settings.",
     ["inputs", "configurations"],
     "For every set of settings and every layout of the deck.",
     "No test parses a deck.",
     ["dg1d/deck.py"],
     [("heading table and defaults", "dg1d/deck.py")],
     ["attributes of the parsed deck, written file"],
     "Hypothesis model-based testing of parser and writer, round-trip",
     "Random search with shrinking over rendered decks.")

prop("C12", "Named initial conditions set up the documented problem",
     "Each named initial condition produces the documented domain, mesh, boundary types, ratio of specific heats and the "
     "projection of the documented profile, for every number of cells and order and for all shock-tube parameters. A shock tube "
     "with the wrong number of parameters stops with an error; unknown names give an empty solution.",
     ["inputs", "configurations"],
     "For all seven names, sizes, orders and shock-tube parameters.",
     "Tests check a few coefficients at one resolution.",
     ["dg1d/solution.py", "dg1d/basis.py"],
     [("initial condition functions", "dg1d/solution.py sinewave .. ictest"), ("projection", "dg1d/solution.py populate")],
     ["fresh solution"],
     "Hypothesis differential testing against independently derived profiles",
     "Random search with shrinking.")

prop("C13", "Ghost cells follow the boundary conditions wherever they are used",
     "Before ghost cells are used they hold the opposite end of the domain for periodic ends and the adjacent cell for "
     "zero-gradient ends, on each side on its own, for solutions built from an initial condition, copied or loaded. Neither the "
     "spatial operator nor the limiter ever depends on what the ghost cells held before. A boundary type that is neither of "
     "these is refused, never ignored.",
     ["inputs", "histories", "configurations"],
     "For every field, system, order, mix of boundary types and way of obtaining the solution.",
     "Tests only apply periodic ends to a fresh initial condition (a defect was found here).",
     ["dg1d/solution.py", "dg1d/dg.py", "dg1d/limiting.py"],
     [("ghost update", "dg1d/solution.py apply_bc"), ("called before use", "dg1d/dg.py residual, dg1d/limiting.py limit")],
     ["ghost cells, residual, limited field"],
     "Hypothesis property-based testing: ghost model and poisoned-ghost metamorphic relation",
     "Random search with shrinking.")

prop("C14", "Limiting is the hierarchical reconstruction, only where flagged",
     "In flagged cells limiting yields the hierarchical reconstruction with the minmod of the three candidate values, for every "
     "order; all other cells keep their values bit for bit. It commutes with scaling, offsets and mirror images, reproduces "
     "smooth polynomials up to the order, flattens first-order extrema, and does nothing at order zero or when switched off.",
     ["inputs", "configurations"],
     "For every field, order 0-7, thresholds and boundary type.",
     "Tests limit one cell of one field at order two (a defect was found at order zero).",
     ["dg1d/limiting.py"],
     [("Legendre/monomial transforms, hierarchical loop, minmod", "dg1d/limiting.py"), ("sensor gate", "dg1d/limiting.py")],
     ["limited field"],
     "Hypothesis differential testing against an exact-rational reconstruction, metamorphic relations",
     "Random search with shrinking; up to rounding; threshold-close decisions skipped.")

prop("C15", "Sensors flag exactly the discontinuities above their thresholds",
     "A cell is flagged as contact or shock exactly when the documented jump measures of the cell averages exceed the thresholds. "
     "Flags depend only on the present averages, not on the history, the higher modes or the units. Higher thresholds never flag "
     "more; shocks are flagged on both sides, rarefactions never as shocks, uniform flow never.",
     ["inputs", "histories"],
     "For every field of averages, pair of thresholds and system.",
     "Tests flag one fixed tube field and one sine.",
     ["dg1d/sensor.py", "dg1d/euler_physics.py", "dg1d/advection_physics.py"],
     [("sensor formulas", "dg1d/euler_physics.py sensing, dg1d/advection_physics.py sensing"), ("reset", "dg1d/sensor.py")],
     ["sensor array of interior cells"],
     "Hypothesis differential testing against a reference sensor, metamorphic relations, exact wave families",
     "Random search with shrinking; threshold-close decisions skipped.")

prop("C16", "Enhanced face values are the least-degree recovery from neighbours",
     "For every order and set of neighbour modes, the enhanced face value is that of the polynomial sharing all moments of the "
     "own cell and the listed moments of the neighbour: exact whenever both cells hold moments of one such polynomial. The value "
     "does not depend on the order in which modes are listed, left and right faces are mirror images, constants are reproduced, "
     "and the solution itself is untouched.",
     ["inputs", "configurations"],
     "For every order up to 8 and every set of distinct neighbour modes.",
     "Tests store matrices for one order and mode set.",
     ["dg1d/enhance.py"],
     [("moment matrices and vectors", "dg1d/enhance.py enhancement_matrices, left_enhancement_vectors"),
      ("face evaluation", "dg1d/enhance.py face_value")],
     ["face values, matrices"],
     "Hypothesis testing: polynomial recovery oracle and exact rational weights",
     "Random search with shrinking; tolerance grows with the conditioning of the weights.")

prop("C17", "Basis, quadrature and projection are exact",
     "At every order the nodes, weights, basis values, derivative table, edge values and mass matrix are those of Legendre "
     "polynomials and Gauss quadrature, exact to degree 2p+1. Projection agrees with the function at the nodes and is exact for "
     "polynomials up to the order; shifted polynomials and integrals of products are exact.",
     ["inputs", "configurations"],
     "For every order to 20 and every polynomial or profile.",
     "Tests store tables for one or two orders.",
     ["dg1d/basis.py", "dg1d/solution.py"],
     [("tables", "dg1d/basis.py Basis"), ("projection", "dg1d/solution.py populate")],
     ["tables and projected coefficients"],
     "Enumeration of orders and Hypothesis testing against exact rational arithmetic",
     "All orders to 20 (thorough 40) enumerated; random polynomials.")

prop("C18", "Discrete stability: energy, bounds, positivity, entropy",
     "For advection the energy of the discretisation changes exactly by the dissipation at jumps and the flux through open ends, "
     "so periodic runs never gain energy, and zeroth-order runs create no new extrema or variation. For the gas, a zeroth-order "
     "step of at most half the CFL limit keeps density and pressure positive with the Rusanov and Godunov fluxes, and does not "
     "lower the total entropy with the Godunov flux, nor with the Rusanov flux where its face speed bounds the waves.",
     ["inputs", "configurations", "histories"],
     "For every field, order, grid, CFL number within the limit and final time.",
     "Stability is a statement about all data; tests never check it.",
     ["dg1d/dg.py", "dg1d/advection_physics.py", "dg1d/euler_physics.py", "dg1d/rk.py"],
     [("upwind flux", "dg1d/advection_physics.py"), ("dissipative gas fluxes", "dg1d/euler_physics.py"),
      ("time step", "dg1d/rk.py")],
     ["energy, extrema, density, pressure, entropy"],
     "Hypothesis property-based testing: exact energy identity, maximum principle, positivity and entropy invariants",
     "Random search with shrinking.")

prop("C19", "Runs converge to exact solutions with the order of the method",
     "Smooth waves carried by the flow, sound waves and nonlinear simple waves are computed with an error comparable to the best "
     "the grid can represent at the chosen order. Riemann problems converge to the exact self-similar solution.",
     ["inputs", "configurations", "histories"],
     "For arbitrary smooth profiles and shock-tube states, orders, grids, fluxes, enhancement and final times.",
     "Tests integrate for a step or two and compare stored numbers.",
     ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/rk.py", "dg1d/solution.py"],
     [("the whole method", "dg1d/")],
     ["final state of runs"],
     "Hypothesis differential testing against exact solutions of the equations",
     "Random search with shrinking; error bounds calibrated with a margin, so small accuracy losses can pass.")

prop("C20", "The program computes the solution its deck describes",
     "Running the program on a deck writes, at every output, the solution an independent implementation of the method gives for "
     "that deck (system, initial condition, order, flux, scheme, enhancement, sensors, limiter, CFL number, times), and "
     "the sensor flags that limited it. The program "
     "runs in any directory, wherever the deck lies, and writes there. The documented problems reproduce their recorded results. A deck that cannot be run ends with a failure status, not with outputs of "
     "something else.",
     ["programs", "inputs", "configurations"],
     "For every valid deck, every combination of its settings, and invalid decks.",
     "Unit tests never run the program; the regression decks are six fixed gas problems outside the unit tests.",
     ["dg1d/main.py", "dg1d/deck.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/solution.py"],
     [("wiring of the deck into solver, limiter and time loop", "dg1d/main.py")],
     ["output files and exit status of the program"],
     "Hypothesis-generated decks, end-to-end differential testing against a reference implementation",
     "Random search with shrinking; threshold-close and ill-conditioned limited runs skipped.")

prop("C21", "Plots show exactly the saved solution",
     "The plotting tool draws, for every field and every interior cell, the values at the Gauss nodes and at the two cell edges of "
     "the chosen saved output, as density, velocity and pressure for the gas, plus the sensors when they were saved. The "
     "regression plotting tool draws the cell averages of density, velocity and pressure at the cell centres against the exact "
     "curve. Neither changes the saved data.",
     ["inputs", "programs"],
     "For every saved field, order, number of cells, system and output number.",
     "No test runs the plotting tools.",
     ["dg1d/plot.py", "regressions/plot.py", "dg1d/solution.py"],
     [("loading, collocation and primitive variables", "dg1d/plot.py"), ("cell averages", "regressions/plot.py")],
     ["lines in the figures"],
     "Hypothesis model-based testing: drawn points against independently evaluated points",
     "Random search with shrinking; rendering to files is replaced by a recorder.")

prop("C22", "No memory and no leaks between solutions, solvers and limiters",
     "After any history of creating, copying, modifying, evaluating, limiting, saving, loading and running solutions, each "
     "solution holds exactly what was put into it and every operation answers as it would on freshly made objects with the same "
     "data. Operations on one solution never change another one or its clock. A newly created problem always gets its own ratio "
     "of specific heats.",
     ["histories", "inputs"],
     "For every sequence of operations over several solutions that share a ratio of specific heats.",
     "Tests use each object once, in one order.",
     ["dg1d/solution.py", "dg1d/dg.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/constants.py"],
     [("deep copies", "dg1d/solution.py copy, copy_data_only"), ("overwritten work arrays", "dg1d/dg.py"),
      ("reset of constants and sensors", "dg1d/constants.py, dg1d/sensor.py")],
     ["fields, clocks and results after each operation"],
     "Stateful model-based testing: generated operation histories against a model and fresh objects",
     "Random search with shrinking over histories of up to 26 operations.")

prop("C23", "Helper functions do what they say",
     "Asking for a directory makes it and its parents exist, leaves everything already there untouched and may be repeated. The "
     "Kronecker delta of two integers is one exactly when they are equal, and anything but integers is refused with an error. "
     "Sorting roots returns the same points in counter-clockwise order about their mean.",
     ["inputs", "histories"],
     "For all paths, arguments and clouds of points.",
     "No test covers these (a defect was found here).",
     ["dg1d/helpers.py", "analysis/aux_functions.py"],
     [("helpers", "dg1d/helpers.py makedir; analysis/aux_functions.py delta, sort_roots_angle")],
     ["directory tree, return values, exit status"],
     "Hypothesis model-based testing",
     "Random search with shrinking.")

prop("C24", "The stability analysis describes the schemes the solver uses",
     "For every order, set of neighbour modes and wave number, the Fourier matrix of the stability analysis is the solver's own "
     "residual acting on that Fourier mode, and the reported curve consists of exactly its eigenvalues. The Runge-Kutta tables "
     "of the analysis give the amplification factors of the real time loop, and the stability boundaries it returns are where "
     "that factor has modulus one; the figures name and draw these curves.",
     ["inputs", "configurations"],
     "For orders 0-6, every subset of neighbour modes, all wave numbers, all schemes and random explicit Runge-Kutta tables.",
     "No test touches the analysis scripts, and nothing else ties them to the solver (a defect was found here).",
     ["analysis/dg_stability.py", "analysis/rk_stability.py", "dg1d/rk_coeffs.py", "dg1d/enhance.py"],
     [("Fourier matrices and spectrum", "analysis/dg_stability.py dg_matrices, icb_matrices, get_eigenvalue"),
      ("amplification factor and boundary", "analysis/rk_stability.py")],
     ["values returned by the functions of the scripts, residual of the solver, result of the time loop"],
     "Hypothesis differential testing: analysis against the solver's operator and time loop",
     "The scripts are executed with figures kept in memory; exact boundaries only for at most four stages, as announced there.")

prop("C25", "The convergence study runs and measures what it says",
     "The convergence study starts the solver once per order and resolution, one run after another, on a deck with exactly "
     "those settings, in a directory of its own where the file logfile keeps what the solver prints, replacing its old "
     "results and leaving everything else alone. Its plots show, up to one common "
     "factor, the L2 difference between the first and the last cell averages of every run against the number of cells and "
     "against the elapsed time its log announces, with reference lines of slope 2p+1.",
     ["inputs", "histories"],
     "For every earlier content of the directories, and all saved results.",
     "No test covers the study (a defect was found here).",
     ["advection_convergence/run.py", "advection_convergence/plot.py", "dg1d/deck.py"],
     [("decks, directories and commands", "advection_convergence/run.py"), ("errors and figures", "advection_convergence/plot.py")],
     ["commands, working directories and decks; points of the figures"],
     "Hypothesis property-based testing: recorded launches and figure contents against independently computed values",
     "Launching the study's own runs is replaced by a recorder (hours); shorter real runs feed the plots in study_end_to_end; figures are read from the drawn lines.")

prop("C26", "A run tells the truth about itself",
     "The log of a run announces every output with the step number and time its files carry, with the size of the step that led "
     "there, and with the share of cells its sensor file flags. It says whether limiting takes place, that an unknown time scheme "
     "is replaced by RK4, that an unusable initial condition is unusable, and which version of the code ran. A run that finds no "
     "valid time step ends with an error that names the step number, the time and the reason, and with a failure status.",
     ["inputs", "configurations", "histories"],
     "For every field, configuration, number of outputs and point at which a run breaks down.",
     "No test reads what the program prints, and the convergence study takes its timings from there.",
     ["dg1d/solution.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/main.py"],
     [("progress and sensor lines", "dg1d/solution.py printer"), ("stopping messages", "dg1d/rk.py sanity_check_dt"),
      ("set-up messages", "dg1d/rk.py integrate, dg1d/limiting.py, dg1d/solution.py, dg1d/main.py")],
     ["standard output, exit message, output files, recorded time steps"],
     "Hypothesis property-based testing: numbers in the log against output files and independently recorded steps",
     "Random search with shrinking; only numbers and key words are judged, to the printed precision.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": p["pid"], "quick_cmd": "bin/check %s --tier quick" % p["pid"],
                     "thorough_cmd": "bin/check %s --tier thorough" % p["pid"], "technique": p["technique"],
                     "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "Property-based testing; no hooks in /repo. C07 was merged into C05."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
