P["C01"] = dict(
    title="A nonlinear solve returns a true equilibrium or raises, and always ends",
    statement="Whenever a Newton solve returns, with any linear backend, tolerance, line-search or starting-guess option, the returned "
              "solution is finite and its discrete residual (volume and surface terms, Dirichlet rows, multipoint constraints) is below "
              "the larger of the absolute tolerance and the relative tolerance times the initial residual. When linear solves "
              "deliver wrong, stale, non-finite or no answers, the solve recovers or raises and never returns something else; once the "
              "linear solver behaves again, it finishes within a bounded number of iterations.",
    over=["fault_sequences", "inputs", "configurations"],
    quant="every problem configuration (element type, dimension, coupling, boundary data, material nonlinearity), every solver option, "
          "and every finite sequence of faulty linear-solver answers",
    why="The tests solve five fixed problems with a well-behaved solver and compare with stored fields; none makes the linear solver "
        "misbehave or checks the residual of what is returned.",
    files=[SOLVER, PROBLEM, FE, "jax_fem/basis.py"],
    mech=[("Newton loop and finite checks", "jax_fem/solver.py solver()"), ("line search", "jax_fem/solver.py line_search()"),
          ("row elimination", "jax_fem/solver.py apply_bc_vec()"), ("linear solver residual assertions", "jax_fem/solver.py jax_solve(), petsc_solve()")],
    state=[("dofs", "current iterate", "solver()"), ("res_val", "residual norm that ends the loop", "solver()")],
    observe=["return value or exception of solver()"],
    technique="deterministic simulation: scripted faulty linear solver, seeded search, independent reference residual",
    note="Seeded exploration of configurations x fault scripts; the oracle is an independent finite-element residual, so a returned "
         "non-solution is detected whatever code path produced it. Not exhaustive.",
    quick=(240, 50),
    rule="One seeded plan = mesh, element type, weak form, boundary data and 2-4 solves with random backend, tolerances, line search, starting "
         "guess, parameters and up to four scripted faulty linear-solver answers. Non-trivial: a fault was delivered and the solve then "
         "recovered or reported it. Distinct: different sequence of solve settings, faults and outcomes.",
    stub=["answers of the n-th linear solve (scaled, perturbed, stale, NaN, zero, partial, raising) as scripted", "clock"],
    assume=["problems are strictly monotone so that Newton with an exact solver converges", "basix quadrature tables are correct"],
    states="distinct (weak form, element type, backend, line search, fault set, outcome)",
)
P["C02"] = dict(
    title="Results depend only on the current inputs of a problem, not on its history",
    statement="The residual, the tangent matrix handed to the linear solver and the solution of a problem depend only on its current "
              "parameters, geometry and Dirichlet data. Any earlier sequence of parameter changes, boundary-condition updates or "
              "reinstatements of earlier ones, geometry updates, solves and failed solves leaves no trace in them: the tangent is the exact "
              "derivative of the current residual with unit rows at exactly the currently constrained degrees of freedom.",
    over=["histories", "configurations", "fault_sequences"],
    quant="every sequence of public mutations, evaluations, solves and failed solves of one problem object",
    why="Tests build a problem, solve it once and stop; cached tangent patterns, cached boundary rows and re-used compiled kernels only matter "
        "over longer histories.",
    files=[SOLVER, PROBLEM, FE],
    mech=[("tangent cache and boundary-row refresh", "jax_fem/solver.py _PetscTangentCache"), ("parameter installation", "jax_fem/problem.py set_params"),
          ("geometry re-initialisation", "jax_fem/problem.py initialize_geometric_quantities"), ("boundary update", "jax_fem/fe.py update_Dirichlet_boundary_conditions")],
    state=[("cached PETSc matrix", "pattern and values of the tangent", "problem._petsc_tangent_cache"), ("V", "element Jacobian values of the last assembly", "problem.V")],
    observe=["compute_residual, newton_update + get_A, custom linear solver arguments, solver()"],
    technique="deterministic simulation: seeded operation histories with failed solves, refinement against a memoryless reference model",
    note="Seeded exploration of histories of 6-12 operations; every observation is compared with a stateless reference finite-element model "
         "(complex-step Jacobian).",
    quick=(200, 50),
    rule="One seeded plan = configuration + 6-12 operations (parameter sets incl. node coordinates, Dirichlet updates, reinstated arrays, single-entry "
         "replacement, value changes, evaluations elsewhere, solves, solves that are made to fail), every observation compared with the "
         "reference. Non-trivial: a comparison of a solution after at least one mutation. Distinct: different operation/outcome sequence.",
    stub=["scripted answers/failures of the linear solver", "clock"],
    assume=["arrays handed to the library are not modified in place by the caller"],
    states="distinct (weak form, element type, operation, number of earlier mutations up to 6)",
)
P["C03"] = dict(
    title="An interrupted operation leaves the problem usable",
    statement="If a solve, evaluation, gradient, parameter change or boundary update is interrupted at any point by an exception (interrupt, "
              "memory exhaustion, error in a callback), the problem can be used again. Retrying an interrupted solve or evaluation needs "
              "nothing to be re-established, after any other interrupted call it suffices to repeat that call's inputs, and every later "
              "solve then returns the solution of the current inputs.",
    over=["crash_points", "histories", "configurations"],
    quant="every library line at which an exception can surface, in every operation, in every history of interruptions, retries and "
          "reinstated earlier boundary data",
    why="The tests never interrupt anything.",
    files=[SOLVER, PROBLEM, FE],
    mech=[("order of state updates in the tangent cache", "jax_fem/solver.py _PetscTangentCache"), ("restoring parameters after tracing", "jax_fem/solver.py implicit_vjp"),
          ("assignment of boundary arrays", "jax_fem/fe.py update_Dirichlet_boundary_conditions")],
    state=[("cached boundary rows and their sources", "which rows are made unit rows", "_PetscTangentCache"), ("geometry and internal variables", "set by set_params", "Problem")],
    observe=["solver(), compute_residual, ad_wrapper results after an interruption"],
    technique="deterministic simulation: crash injection at seeded library lines, reference model after recovery",
    note="Crash points are drawn uniformly over the distinct lines an operation reaches (n-th visit), over histories of 5-10 operations. "
         "Line granularity: an exception between two bytecodes of one line is not simulated.",
    quick=(200, 50),
    rule="One seeded plan = configuration + 5-10 operations, most with an exception injected at the j-th distinct library line (n-th visit) they "
         "execute; interrupted inputs are re-issued where the property says so; solves, residuals and gradients are compared with the reference. "
         "Non-trivial: a verification solve after at least one delivered interruption. Distinct: different operation/crash-line/outcome sequence.",
    stub=["exceptions raised at library lines", "clock"],
    assume=["exceptions surface at line boundaries of the Python code"],
    states="distinct (operation, interrupted function, line)",
)

P["C04"] = dict(
    title="A gradient is the derivative of its own forward evaluation",
    statement="For every forward evaluation through the automatic-differentiation wrapper, the pulled-back gradient equals the exact "
              "derivative of that evaluation's solution with respect to that evaluation's parameters (material fields, scalars, surface "
              "data, Dirichlet values, node coordinates), for cotangents of any magnitude and whatever other evaluations, pullbacks, "
              "solves, parameter changes and failures of the same problem happened in between or share the differentiated function. A "
              "pullback whose adjoint linear solve fails raises and can be retried, and a pullback leaves the problem with concrete "
              "parameters and able to solve.",
    over=["histories", "inputs", "fault_sequences", "configurations"],
    quant="every interleaving of forward evaluations, pullbacks, solves, parameter changes and failed linear solves on one problem, every "
          "parameter kind and cotangent",
    why="No stable test differentiates anything; a gradient test by hand samples one evaluation followed immediately by its own pullback.",
    files=[SOLVER, PROBLEM, FE],
    mech=[("parameters captured by the forward rule", "jax_fem/solver.py ad_wrapper"), ("adjoint solve and parameter vjp", "jax_fem/solver.py implicit_vjp"),
          ("parameter installation under tracing", "user set_params; jax_fem/problem.py, jax_fem/fe.py initialize_geometric_quantities")],
    state=[("residuals of the forward rule", "(params, sol_list)", "ad_wrapper f_fwd"), ("problem attributes", "overwritten by tracing during the pullback", "implicit_vjp")],
    observe=["jax.vjp / jax.grad of the wrapped forward function; later solver() calls"],
    technique="deterministic simulation: seeded interleaving of forwards and pullbacks with adjoint failures and interruptions, reference adjoint",
    note="Directional derivatives are compared with an independent adjoint (complex-step parameter derivatives of a reference residual), to 1e-5 "
         "of the summed terms (5e-2 for PETSc backends with their loose default tolerance).",
    quick=(700, 50),
    rule="One seeded plan = configuration + 4-8 operations (forward, pullback of any earlier forward, loss with two forwards, solve, parameter "
         "change) over two wrappers with different linear and adjoint solvers; adjoint solves are made to fail, pullbacks interrupted and retried. "
         "Non-trivial: a pullback after a later forward or after a failure, or a two-forward loss. Distinct: different operation/fault sequence.",
    stub=["scripted answers/failures of the linear and adjoint solves", "exceptions raised at library lines", "clock"],
    assume=["Dirichlet index sets are not changed between a forward evaluation and its pullback", "set_params installs all parameters it is given"],
    states="distinct (weak form, adjoint backend, cotangent scale, fault, outcome)",
)

P["C05"] = dict(
    title="Problems do not interfere with each other or with the objects handed to them",
    statement="Any number of problems can be built, parameterised, solved and differentiated in one process, alternately or in concurrent threads, "
              "sharing a mesh, option dictionaries and parameter arrays, and each obtains exactly what it would obtain alone: solutions, residuals, "
              "tangents and gradients belong to its own data, and a failure in one does not affect another. The library modifies neither "
              "the option dictionaries nor the meshes and parameters passed to it.",
    over=["schedules", "histories", "configurations"],
    quant="every set of problems and every preemption of the threads that work on them, at any library line",
    why="Each test builds one problem, in one thread, with fresh arguments.",
    files=[SOLVER, PROBLEM, FE, "jax_fem/basis.py"],
    mech=[("per-problem tangent cache", "jax_fem/solver.py _get_petsc_tangent_cache"), ("default options", "jax_fem/solver.py linear_solver, _resolve_solver_options"),
          ("per-problem kernels", "jax_fem/problem.py kernels jitted per problem")],
    state=[("_petsc_tangent_cache, V, internal_vars", "state that must stay per problem", "Problem")],
    observe=["solver(), ad_wrapper, newton_update, compute_residual of each problem; option dictionaries, meshes and parameters after the run"],
    technique="deterministic simulation: seeded preemptive thread scheduler at library lines, independent reference per problem",
    note="Real threads, exactly one running; switches at seeded library lines outside JAX tracing. Preemption inside NumPy/JAX/PETSc calls is not simulated.",
    quick=(400, 50),
    rule="One seeded plan = 2-3 tasks (each its own problem and 2-4 operations; options and sometimes the mesh shared) and up to 40 preemption points, "
         "some linear solves made to fail. Non-trivial: more than one problem in use. Distinct: different switch lines/outcomes.",
    stub=["thread scheduling", "scripted failures of the linear solver", "clock"],
    assume=["one problem object is used by one thread at a time"],
    states="distinct library lines at which a thread was preempted",
)

P["C06"] = dict(
    title="Arc-length continuation stays on the equilibrium path",
    statement="In a displacement- or force-controlled arc-length solve every continuation point recorded in the history and passed to the step "
              "callback is in equilibrium at its own load factor, consecutive points are exactly the configured arc length apart (including the "
              "late arc length after the switch step), and the path starts towards increasing load and never reverses its direction of travel, also "
              "when the load factor passes a limit point. The continuation stops at the first point with load factor >= 1 (the returned solution is then "
              "the full-load equilibrium and the info says polished) or at the step limit (it is then the last recorded point and the info says not "
              "polished). A failed linear solve, a raising callback or an interruption never leaves a wrong point in "
              "the history, the options are not changed, and the next continuation on the same problem is unaffected.",
    over=["fault_sequences", "configurations", "histories"],
    quant="every problem, control, arc length, scaling, step limit, callback behaviour and sequence of faulty linear solves",
    why="No test runs the arc-length solver; the examples only plot its result.",
    files=[SOLVER, "applications/arc_length/README.md"],
    mech=[("Crisfeld step", "jax_fem/solver.py arc_length_solver_disp_driven, arc_length_solver_force_driven"),
          ("outer loops and stop conditions", "jax_fem/solver.py _solve_arc_length_disp, _solve_arc_length_force"), ("final Newton polish", "jax_fem/solver.py _finish_arc_length")],
    state=[("history", "recorded points (step, lam, u)", "_solve_arc_length_disp/_force"), ("Delta_u_dir, Delta_lam_dir", "direction of travel", "same")],
    observe=["return value, info['history'], step_callback arguments of solver(problem, {'arc_length': ...})"],
    technique="deterministic simulation: scripted faulty linear solver, callbacks and interruptions, reference equilibrium check of every recorded point",
    note="Direction-of-travel is checked for arc lengths up to 0.15 of the whole path and fault-free steps; runs in which wrong linear-solver answers prevent "
         "convergence are not counted as a liveness failure.",
    quick=(700, 45),
    rule="One seeded plan = configuration (monotone, or with a fold in the load path) and 1-3 continuations with random control, arc length, psi, late arc "
         "length, step limit, callback (observing, raising, perturbing), linear-solver faults and interruptions. Non-trivial: a checked history. "
         "Distinct: different control/fault/outcome and load-factor sequence.",
    stub=["scripted answers of the linear solves", "exceptions raised by the callback and at library lines", "clock"],
    assume=["the arc length is small compared with the curvature of the path", "the undeformed state is in equilibrium at zero load factor"],
    states="distinct (weak form, element, control, fold, arc length, psi, late, faults, outcome)",
)

P["C07"] = dict(
    title="Dynamic relaxation returns an equilibrium with exact Dirichlet values, or raises",
    statement="Whenever a dynamic-relaxation solve returns, the solution is finite, takes the current Dirichlet values exactly, and its largest free "
              "residual is at most the tolerance, whatever the starting guess, the linear solver used for the starting point (including wrong answers "
              "from it), the stiffness refresh and print intervals and the clock. If the iteration becomes non-finite it raises, and for strictly monotone "
              "symmetric problems it ends within a bounded number of iterations. Gradients through it are those of the returned equilibrium, and "
              "an interrupted relaxation leaves the problem usable.",
    over=["fault_sequences", "inputs", "configurations"],
    quant="every problem configuration, solver option, starting guess and faulty answer of the initial linear solve",
    why="No test runs dynamic relaxation.",
    files=[SOLVER],
    mech=[("time-stepping loop and its end", "jax_fem/solver.py dynamic_relax_solve"), ("mass scaling from the stiffness", "jax_fem/solver.py assembleCSR"),
          ("option handling", "jax_fem/solver.py _solve_dynamic_relax")],
    state=[("q, qdot, M", "pseudo-dynamic state", "dynamic_relax_solve")],
    observe=["return value or exception of solver(problem, {'dynamic_relax': ...}); ad_wrapper gradients"],
    technique="deterministic simulation: scripted faulty linear solver, bad guesses, interruptions, reference residual",
    note="Termination is checked within a budget of 250,000 library lines (several thousand iterations) on small monotone problems.",
    quick=(400, 45),
    rule="One seeded plan = small symmetric monotone configuration and 1-3 relaxations (or gradients) with random options, guess (incl. NaN), boundary data, "
         "linear-solver fault and interruption. Non-trivial: a fault was delivered. Distinct: different options/fault/outcome sequence.",
    stub=["scripted answers of the linear solve", "exceptions at library lines", "clock"],
    assume=["no multipoint constraints (documented limitation)"],
    states="distinct (weak form, element, operation, refresh interval, guess, faults)",
)

P["C08"] = dict(
    title="Timing, logging and progress output never change a result",
    statement="Building a finite element, assembling, a Newton, arc-length or dynamic-relaxation solve, a gradient and an MMA optimisation give "
              "bit-for-bit the same result (or the same kind of exception, after the same number of linear solves) whatever the clock does - stalls, runs backwards, "
              "jumps - whatever the log level is and even if the log stream cannot be written. A function decorated with timeit or walltime receives exactly "
              "the caller's arguments, is called once, and its return value or exception reaches the caller unchanged. When walltime is given a directory, a "
              "call that returns leaves a record 'start, end, elapsed' in <dir>/<filename or 'walltime'>_<platform>.txt whose start and end are clock readings from "
              "before and after the call; a call that raises leaves earlier records alone, and records of other names are never touched.",
    over=["schedules", "configurations", "histories"],
    quant="every behaviour of the clock, log level and log stream, and every operation of the library under them",
    why="Tests run with a well-behaved clock at one log level and never use the timing decorators.",
    files=[SOLVER, UTILS, FE, "jax_fem/mma.py", "jax_fem/logger_setup.py", PROBLEM],
    mech=[("timing summary", "jax_fem/solver.py _log_timing_table, _timing_record, _log_newton_iter_summary"), ("timing decorators", "jax_fem/utils.py timeit, walltime"),
          ("progress output", "jax_fem/solver.py printInfo; jax_fem/fe.py __post_init__; jax_fem/mma.py optimize")],
    state=[("timing", "accumulated timings", "solver()"), ("walltime record", "text file", "walltime()")],
    observe=["results of solver(), ad_wrapper, FiniteElement, newton_update, mma.optimize; decorated functions and the record files"],
    technique="deterministic simulation: every operation executed twice, under a steady and under a faulty simulated clock and log",
    note="Differential: the same operation with the same scripted linear-solver faults under two simulated environments, compared bit for bit.",
    quick=(600, 35),
    rule="One seeded plan = configuration and 3-5 operations, each with a clock behaviour, log level and log-stream fault (and linear-solver faults). "
         "Non-trivial: at least one comparison. Distinct: different operation/clock/outcome sequences.",
    stub=["clock", "log stream", "scripted answers of the linear solves", "design domain of the MMA optimisation (synthetic)"],
    assume=["progress output to stdout can be written"],
    states="distinct (operation, clock behaviour, log level, log stream, faults)",
)

P["C09"] = dict(
    title="A saved solution file holds exactly what was saved, or save_sol raises",
    statement="Whenever a solution file is saved and the call returns, the file at the given path exists and, read back, holds the mesh points, the cells under the "
              "element's own cell type, and the solution and every given point and cell array to single precision, under their names and nothing else, also when it "
              "overwrites an earlier file - even if the disk fills up, opening the file or creating its directory fails, or another process creates the directory at the "
              "same moment; otherwise it raises. Missing directories are created; data of the wrong length is refused without touching the target. Files of "
              "other saves are never changed, and neither are the finite element, the arrays or the info lists passed in.",
    over=["fault_sequences", "crash_points", "histories"],
    quant="every sequence of saves to any mix of paths, every element type and data layout, every file-system fault and every interruption point",
    why="Tests write one file per run to a healthy disk and never read it back.",
    files=[UTILS],
    mech=[("path handling, mesh and data writing", "jax_fem/utils.py save_sol"), ("cell type and node order", "jax_fem/generate_mesh.py get_meshio_cell_type; jax_fem/basis.py get_elements")],
    state=[("sol_file", "file on disk", "save_sol")],
    observe=["return value or exception of save_sol(); files on disk"],
    technique="deterministic simulation: file-system faults (full disk, failing open and mkdir, races), crashes, read-back oracle",
    note="After a raise the target's own content is not constrained (saves are not atomic), except when the data was refused. Fault kinds are injected at the "
         "open/mkdir boundary and through the kernel's file-size limit, so the real writing code meets real short writes.",
    quick=(1500, 35),
    rule="One seeded plan = three meshes and 4-10 saves to up to four paths with random data, each possibly with a file-system fault, bad data or an "
         "interruption. Non-trivial: a fault, bad data or interruption was delivered. Distinct: different save/fault/outcome sequence.",
    real=["jax_fem.utils", "jax_fem.fe (mesh part)", "meshio", "the operating system's file layer"],
    stub=["open and mkdir failures", "file-size limit standing for a full disk", "exceptions at library lines", "clock"],
    assume=["one writer per path"],
    states="distinct (element, extension, data kind, number of extra arrays, bad data, faults, outcome)",
)

P["C10"] = dict(
    title="The gmsh mesh generators return the mesh that was asked for, or raise",
    statement="Whenever box_mesh_gmsh or cylinder_mesh_gmsh returns, the mesh is the one asked for in this call - element type, node and cell counts, uniform grid "
              "coordinates (box) or radius, inner square and layers (cylinder), no duplicated or unused node, no inverted cell, volumes adding up to the domain - "
              "whatever meshes were generated before, whatever file an earlier or foreign run left in the directory, and whatever characters the directory's name holds. When "
              "gmsh fails (a call of its API raises, the command is missing, exits with an error, is killed, writes nothing or part of its output with an "
              "error status, the disk is full or a file cannot be opened) the function raises. After each call gmsh is finalized, and nothing outside <data_dir>/msh has been changed.",
    over=["fault_sequences", "histories", "inputs"],
    quant="every sequence of generator calls with any size, element type and directory, and every failure of gmsh or the file system",
    why="Tests call each generator once in a clean directory with a working gmsh.",
    files=[GM],
    mech=[("gmsh session", "jax_fem/generate_mesh.py box_mesh_gmsh"), ("external command, stale file and clean-up of its mesh", "jax_fem/generate_mesh.py cylinder_mesh_gmsh"),
          ("element types", "jax_fem/generate_mesh.py get_meshio_cell_type")],
    state=[("gmsh session", "global state of the gmsh library", "gmsh.initialize/finalize"), ("box.msh, cylinder.msh, cylinder.geo", "intermediate files", "<data_dir>/msh")],
    observe=["return value or exception of the generators; gmsh.isInitialized(); files on disk"],
    technique="deterministic simulation: scripted failures of gmsh's API and command, file-system faults, crashes, analytic mesh oracle",
    note="Real gmsh runs except where the script makes it fail. A truncated file that gmsh itself reported as written is out of scope (no reader can tell).",
    quick=(1500, 40),
    rule="One seeded plan = 3-6 generator calls in one or two directories, with scripted gmsh or file-system failures, planted foreign files and interruptions. "
         "Non-trivial: a fault or a planted file. Distinct: different call/fault/outcome sequence.",
    real=["jax_fem.generate_mesh", "gmsh API and command", "meshio"],
    stub=["failing gmsh API calls", "failing gmsh command (a wrapper on PATH)", "open/mkdir failures, file-size limit", "exceptions at library lines"],
    assume=["the caller has no gmsh session of its own open", "gmsh reports an error status when it could not write its output"],
    states="distinct (generator, element, directory, planted file, faults, outcome)",
)

P["C13"] = dict(
    title="MMA optimisation takes exact, bounded, isolated steps, whatever its callbacks do",
    statement="optimize calls the objective and then the constraints once per iteration at the same design, starting from the given one; each next design is the minimiser, to solver accuracy, of "
              "Svanberg's MMA approximation built from the values and (filtered) gradients the callbacks returned, stays in [0, 1] and within the move limit, and the last one is returned. The given "
              "design, options and flexible cells and the arrays handed to callbacks are never changed. A run interrupted anywhere or by a raising callback reports it, and runs before, after, inside a "
              "callback of, or interleaved with, another run give what they give alone.",
    over=["histories", "schedules", "crash_points", "inputs"],
    quant="every design domain, objective, constraints, iteration count and move limit; every failing callback, interruption, nesting and interleaving",
    why="No test runs the optimiser; its asymptotes depend on the whole history, and the isolation of runs depends on where they fail and interleave.",
    files=["jax_fem/mma.py"],
    mech=[("history, asymptotes and bounds of a step", "jax_fem/mma.py MMA.mmasub, registerMMAIter"), ("primal-dual solver of the subproblem", "jax_fem/mma.py subsolv"), ("sensitivity filter", "jax_fem/mma.py compute_filter_kd_tree, applySensitivityFilter"),
          ("loop", "jax_fem/mma.py optimize")],
    state=[("xval, xold1, xold2, lowAsymp, upAsymp, epoch", "history of a run", "MMA"), ("flex_inds", "flexible cells", "FiniteElement")],
    observe=["designs handed to the callbacks and returned, their order, exceptions"],
    technique="deterministic simulation: seeded callbacks that raise, return NaN or start a nested run, interruptions at chosen source lines, line-level interleaving of two runs; independent dual solution of each MMA subproblem as oracle",
    note="A design passes when its penalised cost is within a small tolerance of the independent dual optimum; the density-filter variant of the module is off by default and not exercised.",
    quick=(150, 45),
    rule="One seeded plan = one or two optimisations (mesh, flexible cells, objective, constraints, start, 0-24 iterations), each repeated around one or two faults, and interleaved. Non-trivial: a fault fired or "
         "the runs were preempted. Distinct: different event sequence.",
    real=["jax_fem.mma", "jax_fem.fe", "JAX/XLA CPU", "SciPy KD-tree"],
    stub=["callbacks (analytic objective and constraints)", "clock"],
    assume=["no flexible cell has more than 20 neighbours within the filter radius"],
    states="distinct (element type, objective, constraints, fields, start, move limit, fault kinds)",
)
P["C14"] = dict(
    title="Time histories of path-dependent models advance by admissible steps only",
    statement="For the finite and thermo-mechanical plasticity, phase-field fracture, updated Lagrangian, crystal plasticity, third-medium contact, wave, thermoelastic and (implicit and explicit) dendrite "
              "models in applications/: a step that returns holds the equilibrium of its load from the given old state (explicit models: the exact explicit step), and the new state is the flow rule's "
              "(yield satisfied, hardening, phases and history field never going back, stresses as output). It depends only on the given state, load, time step and parameters: discarded trial steps, "
              "failed or interrupted attempts, other histories on the same problem, a rebuilt problem with the saved state, or repeating it change nothing, and the old state is not modified; "
              "the updated Lagrangian model's own loading loop takes the same steps.",
    over=["histories", "fault_sequences", "crash_points", "inputs"],
    quant="every load programme, time-step sequence, linear-solver answer, interruption, restart and interleaving of histories",
    why="No test runs any of these models; a wrong or stale history variable shows only after a particular load path, cut-back or restart.",
    files=["applications/finite_plasticity/model.py", "applications/thermal_mechanical/example.py", "applications/phase_field_fracture/example.py", "applications/updated_lagrangian/example.py",
           "applications/crystal_plasticity/models.py", "applications/wave/example.py", "applications/thermal_mechanical_full/example.py", "applications/dendrite/implicit_fem/example.py", "applications/dendrite/explicit_fem/example.py", "applications/third_medium_contact/example.py"],
    mech=[("return mapping and history update", "applications/finite_plasticity/model.py return_map, update_int_vars_gp; applications/thermal_mechanical/example.py stress_return_maps, update_dT_and_phase"),
          ("local Newton and slip update", "applications/crystal_plasticity/models.py newton_solver, helper"), ("irreversibility", "applications/phase_field_fracture/example.py compute_history"),
          ("configuration update", "applications/updated_lagrangian/example.py UpdatedLagrangian.set_params, push_F_prev"), ("internal variables of the kernels", "jax_fem/problem.py internal_vars")],
    state=[("internal_vars", "history variables of the step being solved", "Problem"), ("dt", "time step", "application problems"), ("dirichlet_bc_info", "prescribed values", "FiniteElement")],
    observe=["solutions, history variables, stresses and tractions returned; exceptions"],
    technique="deterministic simulation: seeded load programmes with trial steps, cut-backs, restarts, two alternating histories, scripted linear-solver faults and interruptions; independent NumPy constitutive updates as oracle",
    note="An honest refusal (the solver reports it did not converge) is retried with smaller increments, which must succeed. Scripts are loaded without running their main part; their loops are the harness's.",
    quick=(96, 45),
    rule="One seeded plan = model, mesh, 4-9 steps on one or two histories with trial steps, restarts, repeats, linear-solver faults and interruptions. Non-trivial: a fault, trial, restart or second history. "
         "Distinct: different event sequence.",
    real=["application models", "jax_fem.problem, fe, solver", "JAX/XLA CPU", "SciPy SuperLU", "PETSc LU"],
    stub=["main loops of the scripts", "linear-solver answers (scripted)", "clock"],
    assume=["increments small enough for the models' Newton iterations, after at most six halvings"],
    states="distinct (model, step, fault kinds)",
)
P["C15"] = dict(
    title="Quiet-element builds keep births, boundaries and temperatures consistent",
    statement="For every mesh and tool path of the quiet-element application: after any sequence of births the incrementally updated external faces, the faces under the laser plane, and the quiet points "
              "are those of the cells active now; the simulation makes one thermal step per sub-step of the path, in order, and each accepted temperature satisfies heat balance over the active cells with "
              "convection on exactly their external faces, the laser on the external faces at its height, and ambient temperature at quiet points, starting from the previous step's; the files written "
              "hold those steps. A failing solve or save, or an interruption, is reported, and running again gives the right history.",
    over=["histories", "fault_sequences", "crash_points", "inputs"],
    quant="every order of births, tool path, failing solve or write, and interruption",
    why="No test runs the application; a face left in (or out of) the boundary after some order of births silently changes the heat balance.",
    files=["applications/quiet_element/example.py"],
    mech=[("incremental face hashing", "applications/quiet_element/example.py hash_map_for_faces, update_hash_map"), ("face and point markers", "applications/quiet_element/example.py get_active_face_truth_tab, get_quiet_point_inds_set"),
          ("time loop", "applications/quiet_element/example.py quiet_element_simulation"), ("changing Dirichlet set", "jax_fem/fe.py update_Dirichlet_boundary_conditions")],
    state=[("hash_map, inner_faces, all_faces", "faces seen so far", "update_hash_map"), ("internal_vars, internal_vars_surfaces", "markers and previous temperatures", "Thermal")],
    observe=["tables returned by the helper functions; temperatures, files and exceptions of the simulation"],
    technique="deterministic simulation: random birth orders and tool paths through the real time loop with failing solves, failing saves and interruptions; from-scratch topology and independent heat balance as oracle",
    note="Tool paths raise the laser plane only together with a birth (otherwise the laser keeps heating the previous plane, which is not judged). The iterative solver of the laser-off steps may honestly refuse.",
    quick=(120, 45),
    rule="One seeded plan = mesh (any cell order and orientation), 2-4 operations: births in random batches, or a whole build with up to 26 steps, one fault, and a second run. Non-trivial: a fault fired. "
         "Distinct: different event sequence.",
    real=["applications/quiet_element functions and time loop", "jax_fem", "JAX/XLA CPU", "SciPy SuperLU, PETSc", "meshio writer"],
    stub=["mesh and tool-path files", "linear-solver answers (scripted)", "save_sol failures", "clock"],
    assume=[],
    states="distinct (mesh, operation, fault kind, length)",
)
P["C16"] = dict(
    title="File conversions are exact or raise, and never damage their input",
    statement="modify_vtu_file writes the input's text with the version string replaced and nothing else changed, also when both paths name the same file (directly or through a "
              "link) or the output exists; read_abaqus_and_write_vtk writes a file with the points and cells of the input; json_parse returns and prints the file's content; each "
              "raises if the input is missing, unreadable or malformed or the output cannot be opened or written completely, and then (as on success) leaves every file but its output "
              "unchanged, and an unreadable input leaves the output unchanged too. make_video runs ffmpeg once, with the given directory's png/tmp/u.%04d.png as input and its mp4/test.mp4 as output, "
              "each one argument whatever characters the directory's name holds, and runs nothing else.",
    over=["fault_sequences", "crash_points", "inputs"],
    quant="every file content and path relation, every file-system fault and interruption, every directory name",
    why="No test calls these functions.",
    files=[UTILS],
    mech=[("version replacement", "jax_fem/utils.py modify_vtu_file"), ("conversion", "jax_fem/utils.py read_abaqus_and_write_vtk"),
          ("configuration", "jax_fem/utils.py json_parse"), ("ffmpeg command line", "jax_fem/utils.py make_video")],
    observe=["files on disk, return values and exceptions; argument vector of ffmpeg"],
    technique="deterministic simulation: file-system faults, crashes, truncated inputs, recording stub of ffmpeg",
    note="Text files with \\n line ends. After a failed write the output's own content is not constrained. make_video's handling of ffmpeg's exit status is not claimed.",
    quick=(1500, 25),
    rule="One seeded plan = 4-8 calls on random files, paths and directory names with file-system faults, truncated inputs or interruptions. "
         "Non-trivial: fault, malformed input, in-place conversion or video. Distinct: different call/fault/outcome sequence.",
    real=["jax_fem.utils", "meshio", "shell", "the operating system's file layer"],
    stub=["ffmpeg (records its arguments)", "open/mkdir failures, file-size limit", "exceptions at library lines"],
    assume=["UTF-8 locale"],
    states="distinct (function, input kind, output kind, faults, outcome)",
)

P["C11"] = dict(
    title="The AMGX backend gives verified results or raises, and leaks no device object",
    statement="With the AMGX linear solver, a Newton solve that returns is in equilibrium and a gradient that is returned is the exact derivative, whatever answer AMGX gives "
              "(NaN, zero, wrong, stale, stopped early) and at whichever call AMGX fails; otherwise an exception is raised and the same call can be repeated with success. Every solve uses "
              "the current matrix and right-hand side, double precision and the configuration file asked for (an unreadable file raises). Each device object created is destroyed "
              "exactly once, children before their resources, also when any call fails half-way.",
    over=["fault_sequences", "crash_points", "configurations"],
    quant="every failing call position, every faulty answer and every sequence of solves and gradients",
    why="No test runs the AMGX backend: it needs a GPU.",
    files=[SOLVER],
    mech=[("host callback and clean-up", "jax_fem/solver.py AMGX_solve_host"), ("callback and types", "jax_fem/solver.py AMGX_solve"), ("option handling", "jax_fem/solver.py linear_solver")],
    state=[("cfg, resources, solver, A_amg, b_amg, x_amg", "device objects", "AMGX_solve_host")],
    observe=["results and exceptions of solver() and gradients; calls received by the simulated device"],
    technique="deterministic simulation: simulated GPU solver library with scripted failures and answers, lifetime tracking, reference oracles",
    note="The device is a stub (dense solve that stops at the configured tolerance or meets the guess); lifetimes and types follow pyamgx's documented rules. Failing destroy calls are not injected.",
    quick=(300, 45),
    rule="One seeded plan = configuration and 3-5 solves or gradients, most with scripted AMGX failures or answers, configuration files and starting guesses. "
         "Non-trivial: a fault was delivered or the configuration was unreadable. Distinct: different operation/fault/outcome sequence.",
    stub=["pyamgx and the GPU", "clock"],
    assume=["pyamgx objects are released only by destroy()"],
    states="distinct (weak form, operation, configuration, faults, outcome)",
)

P["C12"] = dict(
    title="Distributed Poisson solvers match the serial problem on any partition, no hang",
    statement="On any number of ranks, any partition giving each rank at least one cell, any ownership of shared vertices and any interleaving and message order, the distributed solvers "
              "(both applications in applications/parallel) end on every rank, and no rank waits for a collective call others do not make; the mesh each builds is a conforming triangulation of the unit square, the same on all ranks. Every system they assemble is the serial finite "
              "element system with the boundary rows eliminated; the solution they return is the serial one; the error norm (printed once, by rank 0) and the VTU file describe it. A linear "
              "solve that diverges is reported by rank 0 or raised on all ranks.",
    over=["schedules", "inputs", "fault_sequences"],
    quant="every partition, ownership and numbering, every interleaving of the ranks and order of delivery, every diverging solve",
    why="No test runs these applications: mpi4py and several processes are needed, and partitions and interleavings are not under a test's control.",
    files=["applications/parallel/example.py", "applications/parallel/poisson_mpi.py", "applications/parallel/poisson_gold.py"],
    mech=[("local mesh and assembly", "applications/parallel/poisson_mpi.py build_local_mesh_from_dm, scatter_global_coo, main"), ("assembly", "applications/parallel/example.py main"),
          ("element forms", "applications/parallel/poisson_gold.py")],
    state=[("mat, b, u", "distributed system and solution", "main()"), ("gdofs", "global numbers of the local dofs", "poisson_mpi.main")],
    observe=["systems passed to the linear solver, printed results, VTU file, calls made by each rank"],
    technique="deterministic simulation: simulated MPI/PETSc with a seeded rank scheduler, random partitions, shuffled delivery and diverging solves; serial reference oracle",
    note="mpi4py and petsc4py's distributed objects are stubs following the documented collective semantics; the element code and jax_fem's assembly are real.",
    quick=(300, 45),
    rule="One seeded plan = 1-3 runs of an application, each with its own mesh, partition, ownership, schedule policy and faults. Non-trivial: more than one rank. "
         "Distinct: different event sequence.",
    real=["applications/parallel example and poisson_mpi", "jax_fem.problem", "jax_fem.fe", "jax_fem.basis", "JAX/XLA CPU"],
    stub=["MPI", "PETSc DMPlex, Vec, Mat and KSP", "input mesh", "clock"],
    assume=["Mat.zeroRows, assembly, norms and solves are collective, as PETSc documents", "each rank holds at least one cell"],
    states="distinct (application, ranks, partition kind, ownership, policy, empty ranks, outcome)",
)

NA["C17"] = dict(
    title="Discrete solutions converge at the theoretical rate to smooth exact solutions",
    statement="On every sequence of refined meshes and for every element type, the L2 error of a smooth manufactured solution decreases with the order of the element plus one.",
    over=["inputs", "configurations"], quant="every smooth exact solution, element type and mesh family",
    why="Tests compare five stored fields on one mesh each.",
    files=["jax_fem/basis.py", FE, PROBLEM, "applications/convergence_rate/example.py"],
    mech=[("shape functions and quadrature", "jax_fem/basis.py get_shape_vals_and_grads"), ("kernels", "jax_fem/problem.py")],
    observe=["error norms of solver() results"],
    reason="A convergence rate is a statement about pure functions of the mesh: no scheduling, time, I/O, randomness or failure changes it, so there is nothing for a simulator to "
           "control. (The element formulation itself is compared with an independent model inside C01 and C02.)")
NA["C18"] = dict(
    title="Structured mesh generators produce conforming meshes of the given domain",
    statement="The rectangle, box and tetrahedral generators that do not call gmsh return, for all divisions and side lengths, positively oriented cells that fill the domain without gaps or duplicates.",
    over=["inputs"], quant="every number of divisions and side length",
    why="Tests build a few fixed meshes.",
    files=["jax_fem/generate_mesh.py"],
    mech=[("rectangle and box", "jax_fem/generate_mesh.py rectangle_mesh, box_mesh")],
    observe=["points and cells returned"],
    reason="Pure functions of integers and floats without state, time, I/O or concurrency; input enumeration would decide it, deterministic simulation has no fault or schedule to inject. "
           "(The gmsh-based generators, which do have such behaviour, are C10.)")
NA["C19"] = dict(
    title="Design sensitivities of topology examples pass a finite-difference test",
    statement="For every design of the topology-optimisation and surrogate examples, the sensitivities given to the optimiser equal finite differences of objective and constraints.",
    over=["inputs"], quant="every design field",
    why="Tests run none of the design examples.",
    files=["applications/outdated/top_opt", "applications/surrogate_model/example.py", "applications/surrogate_model/train.py"],
    mech=[("objective and constraint gradients", "applications/outdated/top_opt/box.py")],
    observe=["gradients returned by the objective handles"],
    reason="The examples are outdated or need torch, a trained network and data files that are not in the sandbox, so they cannot be executed; what can (the differentiated solve and the optimiser) is C04 and C13.")
NA["C20"] = dict(
    title="Hyperelastic and polar-decomposition material laws are frame indifferent",
    statement="Stored energy and stress of the hyperelastic models in the tests and applications are unchanged, respectively rotated, under a superposed rigid rotation.",
    over=["inputs"], quant="every deformation gradient and rotation",
    why="Tests evaluate one deformation.",
    files=["applications/arc_length/hyperelastic_models.py", "applications/nodal_stress/example.py"],
    mech=[("energy functions", "applications/arc_length/hyperelastic_models.py")],
    observe=["stress functions"],
    reason="An algebraic identity of pure functions; no schedule, clock, I/O or fault enters, so simulation cannot add anything to evaluating it.")

P["C21"] = dict(
    title="A gradient through a load history is the derivative of that very history",
    statement="For the applications that differentiate through several solves (updated Lagrangian design gradient, crystal plasticity stress and volume sensitivities) and for wave and "
              "thermoelastic histories, the gradient of a result with respect to design, material, load or initial data is the derivative of the whole step sequence as it was evaluated, for any number of "
              "steps. It stays so when other histories run on the same problem between the evaluation and its gradient, and when linear or adjoint solves fail or the computation is interrupted: the failure "
              "is raised, and repeating the call gives the right result.",
    over=["histories", "fault_sequences", "crash_points", "inputs"],
    quant="every number of steps, design or parameter vector, interleaving of evaluations and gradients, failing solve and interruption",
    why="No stable test differentiates a history; state of the problem changed by later steps only matters when pullbacks run in reverse through it.",
    files=["applications/updated_lagrangian/example.py", "applications/crystal_plasticity/models.py", "applications/crystal_plasticity/volume_sensitivity.py",
           "applications/crystal_plasticity/stress_sensitivity.py", "applications/wave/example.py", "applications/thermal_mechanical_full/example.py", SOLVER, PROBLEM],
    mech=[("one pullback per step", "jax_fem/solver.py ad_wrapper, implicit_vjp"), ("history and design gradient", "applications/updated_lagrangian/example.py end_to_end_ul, push_F_prev"),
          ("history variables", "applications/crystal_plasticity/models.py update_int_vars_gp, compute_avg_stress")],
    state=[("parameters of a step", "captured by the forward rule", "ad_wrapper"), ("geometry, internal variables, Dirichlet values", "overwritten by every step", "Problem")],
    observe=["jax.vjp of a function of several forward evaluations"],
    technique="deterministic simulation: seeded interleaving of history evaluations and pullbacks with failing solves and interruptions; differences of an undisturbed second problem as oracle",
    note="Directional derivatives along the gradient and along a random direction, against fourth-order differences, to 1e-5. Crystal plasticity with a constant time step.",
    quick=(96, 45),
    rule="One seeded plan = application, mesh, 1-4 steps, 3-6 operations: evaluate a history, pull any earlier one back, run another history; each with an optional failing solve or interruption. "
         "Non-trivial: a fault fired or a later history ran before the pullback. Distinct: different event sequence.",
    real=["application models and histories", "jax_fem", "JAX/XLA CPU", "SciPy SuperLU", "PETSc LU"],
    stub=["main parts of the scripts", "failures of linear and adjoint solves", "exceptions at library lines", "clock"],
    assume=["the history is differentiable at the sampled points"],
    states="distinct (application, steps, adjoint backend, cotangent scale, faults, other history in between)",
)
