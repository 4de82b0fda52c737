"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


FV = "finite_volume/"
SW = "finite_volume/shallow_water/"
SWS = SW + "solver/"
SC = "finite_volume/scalar/"
FE = "finite_element/"

prop("C01", "Finite volume schemes conserve mass and momentum",
     "On a periodic domain every finite volume solver (scalar: llf, central, mcl-fv; shallow water over flat bottom: llf, lw, low-order, central, es, es1, antidiffusion, mcl with every flux, the reduced models, coarse) leaves the sum of all cell values unchanged in every time step up to roundoff. Over varying bottom the water height is still conserved exactly, and across an outflow, wall or inflow boundary the change of the total is exactly what the two boundary fluxes bring in; a wall lets no water through.",
     ["inputs", "configurations", "histories"],
     "all initial states, mesh sizes, gravitational accelerations, bathymetries, time integrators and numbers of steps",
     "Unit tests compare single flux arrays for one hand computed vector; conservation is a statement about telescoping of left and right fluxes for every state, mesh size and step.",
     [FV + "numerical_flux.py", SWS + "low_order.py", SWS + "mcl.py", SC + "solver/mcl.py", "core/boundary.py"],
     [("NumericalFluxDependentRightHandSide", FV + "numerical_flux.py"), ("flux returned once per node as (-f, f)", FV + "numerical_flux.py")],
     ["Solver.solution.value before/after each step", "right hand side returned by Solver.as_dict()"])

prop("C02", "Finite element schemes conserve the integral of the solution",
     "On the periodic finite element space of any mesh size and polynomial degree at most seven the cg, cg-low and mcl-fem solvers leave the integral of the discrete solution unchanged in every time step up to roundoff, for advection and Burgers.",
     ["inputs", "configurations", "histories"],
     "all initial states, mesh sizes, polynomial degrees, time integrators and numbers of steps",
     "Tests check entries of single matrices for two or three cells; conservation couples mass matrix, flux gradient, diffusion and limiter for every state.",
     [FE + "scalar/solver/cg.py", FE + "scalar/solver/cg_low.py", FE + "scalar/solver/mcl.py", FE + "artificial_diffusion.py", FE + "discrete_gradient.py", FE + "mass.py"],
     [("rows of the diffusion sum to zero, limited fluxes antisymmetric", FE + "artificial_diffusion.py")],
     ["integral of Solver.solution over the domain"])

prop("C03", "Constant states are preserved and numerical fluxes are consistent",
     "A spatially constant state with flat bottom and periodic or outflow boundaries is a steady state of every solver without a trained network, scalar, finite element or shallow water, and stays so for every time integrator. Every numerical flux evaluated at equal neighbouring states returns the physical flux of that state: u or u^2/2 for the scalar problems, (q, q^2/h + g h^2/2) for shallow water, with zero flux for a dry state.",
     ["inputs", "configurations"],
     "all admissible constant states (including zero, negative scalar, dry and supercritical ones), mesh sizes, gravitational accelerations",
     "Tests evaluate each flux for one or two vectors; consistency is required for every state including zero wave speeds and dry cells.",
     [FV + "numerical_flux.py", SW + "core.py", SC + "core.py", SWS + "energy_stable.py", SWS + "low_order.py", SWS + "mcl.py", FE + "flux_gradient.py"],
     [("physical flux", SW + "core.py"), ("scalar fluxes", SC + "core.py")],
     ["right hand side", "numerical flux values"])

prop("C04", "Scalar finite volume bounds (llf, mcl-fv)",
     "For advection and Burgers, a forward Euler step of llf or mcl-fv with time step at most step length / (2 * maximum wave speed) keeps every cell value between the minimum and maximum over the cell itself and its two neighbours in the boundary extended old state. Hence with Heun and ssp3 the global minimum and maximum of the initial data (and inflow data) are never exceeded under that restriction.",
     ["inputs", "histories", "configurations"],
     "all cell values, signs, mesh sizes, boundary conditions and numbers of steps",
     "The limiter is tested on one vector; a bound must hold for every stencil, in particular at the periodic seam, at extrema and with zero or negative speeds.",
     [SC + "solver/mcl.py", SC + "core.py", "core/riemann_solver.py", "core/local_bounds.py", FV + "index_mapping.py"],
     [("limit", SC + "solver/mcl.py"), ("WaveSpeed", SC + "core.py")],
     ["state after each stage"])

prop("C05", "Scalar finite element bounds (cg-low, mcl-fem)",
     "For advection and Burgers on any mesh size and polynomial degree at most seven, a forward Euler step of cg-low or mcl-fem whose time step does not exceed the optimal one (lumped mass / (2 |diffusion diagonal|), minimised over nodes) keeps every degree of freedom within the minimum and maximum of the old values of its neighbours (all nodes of the cells it belongs to). Hence with every strong stability preserving integrator the global bounds of the initial data are respected as long as no Runge-Kutta stage violates this condition, i.e. no CFL warning is written.",
     ["inputs", "histories", "configurations"],
     "all nodal values, mesh sizes, degrees, strong stability preserving integrators and numbers of steps",
     "Tests compare one right hand side per class; bounds must hold for every nodal pattern and at the periodic seam.",
     [FE + "scalar/solver/cg_low.py", FE + "scalar/solver/mcl.py", FE + "artificial_diffusion.py", FE + "index_mapping.py", "core/local_bounds.py"],
     [("ArtificialDiffusion", FE + "artificial_diffusion.py"), ("limited fluxes", FE + "scalar/solver/mcl.py")],
     ["state after each step", "time step used"])

prop("C06", "Shallow water heights stay non-negative (llf, low-order, mcl)",
     "Over flat bottom for llf, and over any bottom for low-order and for mcl with every high order flux, a forward Euler step with time step at most step length / (2 * maximum wave speed) keeps all water heights non-negative, and never produces NaN or infinity, also when cells are dry; Heun and ssp3 inherit this as long as every Runge-Kutta stage satisfies the same restriction (all statements up to roundoff). Within that step the new height and, for mcl, the height bar states lie within the bounds given by the low order bar states of the neighbouring interfaces.",
     ["inputs", "histories", "configurations"],
     "all states with non-negative heights (dry cells, dam breaks, supercritical flow), bathymetries, boundary conditions, high order fluxes",
     "Tests use one wet state; positivity and finiteness must hold for every combination of wet, nearly dry and dry neighbours and bottom steps.",
     [SWS + "low_order.py", SWS + "mcl.py", SW + "core.py", "core/riemann_solver.py"],
     [("height positivity fix", SW + "core.py"), ("limit", SC + "solver/mcl.py")],
     ["state after each step"])

prop("C07", "Lake at rest is preserved exactly (well-balanced schemes)",
     "For any bathymetry and any water level above it, the lake at rest (constant height plus bathymetry, zero discharge) is a steady state, to roundoff, of central, low-order, es, es1 and mcl (with the high order fluxes central, es, es1, low-order), for outflow and wall boundaries and for periodic ones when the bottom agrees at both ends; this also holds after many steps and for every time integrator.",
     ["inputs", "configurations", "histories"],
     "all bathymetries, water levels, mesh sizes, gravitational accelerations and supported boundary conditions",
     "Tests only have a single flux vector per scheme; the balance of flux and source must hold for every pair of bottom values.",
     [SW + "numerical_flux.py", SWS + "low_order.py", SWS + "mcl.py", SWS + "energy_stable.py", SWS + "central.py"],
     [("source term", SW + "numerical_flux.py"), ("entropy including bathymetry", SW + "core.py")],
     ["right hand side", "state after each step"])

prop("C08", "Entropy conservation of es and entropy stability of es1",
     "For every pair of wet states the es flux satisfies Tadmor's condition: jump of entropy variables times flux equals the jump of the entropy potential (with the bottom source included), so the semi-discrete energy of a periodic lake is constant. The es1 scheme never produces energy: the discrete total energy rate sum over cells of entropy variables times right hand side is never positive beyond roundoff on periodic domains, for any bottom.",
     ["inputs", "configurations"],
     "all pairs of wet states, bottom steps, gravitational accelerations and mesh sizes",
     "Tests check numbers of one flux; entropy conservation is an algebraic identity over all pairs.",
     [SWS + "energy_stable.py", SW + "core.py"],
     [("EnergyStableFlux", SWS + "energy_stable.py"), ("Entropy, Potential", SW + "core.py")],
     ["flux values", "right hand side"])

prop("C09", "Translation and mirror equivariance",
     "On a periodic domain shifting the initial state (and bathymetry) by whole cells shifts the discrete solution of every solver by the same number of cells, at every time. Mirroring the domain (for shallow water with discharge negated, for Burgers with values negated, walls and outflow sides swapped) mirrors the solution of the shallow water solvers llf, lw, central, low-order, es, es1 and antidiffusion and, for Burgers, of llf, central, mcl-fv, cg, cg-low and mcl-fem.",
     ["inputs", "configurations", "histories"],
     "all states, shifts, mesh sizes, bathymetries and boundary pairs",
     "A metamorphic relation between two runs; no test relates two runs.",
     ["core/boundary.py", SW + "boundary.py", "core/local_bounds.py", FV + "numerical_flux.py", SWS + "mcl.py", SC + "solver/mcl.py", FE + "space.py"],
     [("ghost cells", "core/boundary.py"), ("neighbour indices", FV + "index_mapping.py")],
     ["right hand side", "solution after steps"])

prop("C10", "Boundary conditions use the right ghost values at the right time",
     "For every boundary pair, stencil radius and state, each node sees the state extended by ghost cells: periodic wraps around, outflow repeats the edge cell, inflow evaluates the prescribed data at the time of the current Runge-Kutta stage, and a wall repeats the edge cell with negated discharge; each cell is given the values of its own left and right node. Inputs are never modified and unknown conditions or missing inflow data raise ValueError.",
     ["inputs", "configurations", "histories"],
     "all pairs of conditions, radii 1 to 3, states, stage times",
     "Tests cover a few vectors with radius one or two and never a time dependent inflow inside a Runge-Kutta stage.",
     ["core/boundary.py", SW + "boundary.py", FV + "numerical_flux.py", "core/ode_solver.py"],
     [("BoundaryConditions", "core/boundary.py"), ("reflecting cells", SW + "boundary.py")],
     ["get_node_neighbours", "get_cell_neighbours", "solver runs with inflow"])

prop("C11", "Runge-Kutta integrators have their order and strong stability",
     "The explicit integrators satisfy all order conditions of their order (forward Euler 1, Heun 2, ssp3 3, the eighth order method 8), evaluate the right hand side at stage times equal to current time plus the reported time nodes, and advance time by exactly the given step. One step is the classical Shu-Osher convex combination of Euler steps for Heun and ssp3. Neither the initial value given, nor the arrays returned by the right hand side, nor the stage values are modified, and reinitialize makes the integrator equivalent to a new one.",
     ["inputs", "histories"],
     "all right hand sides (through all rooted trees up to the order), values of scalar, vector and matrix shape, and sequences of execute and reinitialize",
     "Tests integrate one or two ODEs over a time interval; a wrong high order coefficient changes such errors too little to notice.",
     ["core/ode_solver.py"],
     [("Butcher coefficients", "core/ode_solver.py")],
     ["execute, solution, time, stage_values, time_nodes"])

prop("C12", "Time stepping covers the interval exactly",
     "Iterating over the time stepping yields positive steps that never exceed cfl number times the optimal step (recomputed before each step if and only if adaptive), only the last one may be shorter, and the reached time is exactly the end time (as long as the roundoff accumulated in the time stays below the absolute tolerance 1e-12 of the generator); the reported number of steps and time agree with the steps yielded and, if not adaptive, the length equals their number. Iterating again starts over from the start time; a too small step raises the documented error instead of looping.",
     ["inputs", "histories", "configurations"],
     "all start times, end times, cfl numbers, sequences of optimal steps, and interleavings of next, len and restart",
     "Tests use three parameter sets; roundoff at the end of the interval and restart behaviour depend on every ratio.",
     ["core/time_stepping.py"],
     [("TimeStepping", "core/time_stepping.py"), ("TimeStepGenerator", "core/time_stepping.py")],
     ["iteration over TimeStepping, time, time_steps_number, len"])

prop("C13", "CFL violations are reported and solves end at the end time",
     "Solving any benchmark ends with the solution time equal to the benchmark's end time, the solution advanced once per step. Finite element solvers with a cfl check write a warning exactly for those steps in which some Runge-Kutta stage has an optimal time step below the one used, continue the calculation, and stop with a warning if the adaptive time step collapses. The optimal time step of a finite volume scheme is the cell size divided by the largest wave speed of all Riemann problems of the state at the given time, those at the boundary included.",
     ["inputs", "histories", "configurations"],
     "all initial states, cfl numbers above and below one, adaptive or not, all integrators",
     "No test runs a solver with a violated condition.",
     ["core/solver.py", "core/time_stepping.py", FE + "scalar/solver/cg_low.py", FE + "scalar/solver/mcl.py", "finite_volume/time_stepping.py"],
     [("CFLChecker", "core/time_stepping.py"), ("Solver._check_cfl_condition", "core/solver.py")],
     ["warnings written", "solution time"])

prop("C14", "Reinitializing a solver equals building a new one",
     "For every solver, after any history of solves (complete, partial or aborted) and reinitializations, reinitialize with a benchmark followed by solve yields exactly the solution (values, times, histories) a new solver for that benchmark yields, provided both benchmarks agree in domain, times, boundary conditions and bottom. The benchmark's data are only read.",
     ["histories", "configurations", "inputs"],
     "all sequences of solve, partial stepping and reinitialize over several benchmarks, every solver and option",
     "Stale state in caches, integrators, step sizes, flux objects or histories shows only in sequences; tests reinitialize almost nothing.",
     ["core/solver.py", FV + "solver.py", FE + "solver.py", SWS + "coarse.py", "core/discrete_solution.py", "core/ode_solver.py"],
     [("Solver.reinitialize", FV + "solver.py"), ("set_value", "core/discrete_solution.py")],
     ["solution after solve"])

prop("C15", "Solvers are isolated from each other and deterministic",
     "Stepping several solvers in any interleaving, even of the same type, the same benchmark object and the same flux getter, gives each the solution it has when run alone, and running again gives the same. Evaluating a right hand side is pure: it depends only on its arguments (and for lw the time step set), does not modify them, and can be repeated or interleaved with other evaluations.",
     ["schedules", "histories", "configurations"],
     "all interleavings of the steps of two or three solvers, all pairs of solver types, all orders of right hand side evaluations",
     "Shared class attributes, caches and scratch arrays show only in interleavings, tests run one object at a time.",
     ["core/solver.py", FV + "numerical_flux.py", FE + "flux_approximation.py", "core/local_bounds.py", SWS + "__init__.py", "core/riemann_solver.py"],
     [("per instance flux objects", FV + "solver.py"), ("FluxApproximation cache", FE + "flux_approximation.py")],
     ["solutions of interleaved solvers", "right hand sides"],
     [("flux approximation cache", "last vector and its flux", FE + "flux_approximation.py")])

prop("C16", "Discrete solutions and histories record what happened",
     "After any sequence of update and set_value a discrete solution reports the latest value and the accumulated time; with history it holds one entry per state, in order, with value, time and time step consistent; set_value discards the entries not before the given time and appends the new state, so that a solution set back to its start has a new history. A value which is not finite is refused with ValueError and leaves no trace. Coarsened views equal the block averages of the fine solution with time and history of the same length, and no later change of any value array handed in or out changes the recorded values. A numerical flux with history returns the fluxes of the flux it wraps and records all of them in order.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over all solution classes, scalar and system valued",
     "Tests perform one update per class; aliasing and history drift need sequences.",
     ["core/discrete_solution.py", "core/vector_coarsener.py", "finite_volume/numerical_flux.py"],
     [("DiscreteSolution", "core/discrete_solution.py"), ("CoarseSolutionWithHistory", "core/discrete_solution.py")],
     ["value, time, value_history, time_history, time_step_history"])

prop("C17", "Meshes partition the domain",
     "A uniform mesh of any size splits its interval into contiguous cells of equal length that exactly cover it, and its step length is that length; refinement and coarsening give the uniform meshes of multiplied and divided size and reject what does not divide. Looking up the cells of a point returns exactly the cells whose closure contains it, every cell has its own index and an interval which is no cell has none, and affine mappings and their inverses map cells and the standard interval onto each other.",
     ["inputs"],
     "all intervals, sizes, degrees of refinement, cells and points including nodes and end points",
     "Tests use two meshes.",
     ["core/mesh.py"],
     [("UniformMesh", "core/mesh.py"), ("AffineTransformation", "core/mesh.py")],
     ["cells, find_cells, step_length"])

prop("C18", "Quadrature rules integrate polynomials exactly",
     "Every Gaussian quadrature rule (on a simplex of given points, of given degree on any interval, on the cells of a finite element space) is exact for all polynomials up to its stated degree on its interval, has positive weights summing to the interval length and symmetric nodes inside it, in sorted order.",
     ["inputs"],
     "all supported numbers of nodes, intervals and monomials",
     "Tests check a few node numbers.",
     ["core/quadrature.py"],
     [("Gauss rules", "core/quadrature.py")],
     ["nodes, weights, integrate"])

prop("C19", "Norms are the norms they are named after",
     "L1 and L2 norm of a cellwise polynomial of degree within the quadrature's exactness equal the exact value of the integral (scalar and vector valued, also over a time axis), Linf is the maximum over the equidistant points including end points of every cell. They are non-negative, absolutely homogeneous and vanish for zero functions.",
     ["inputs", "configurations"],
     "all mesh sizes, intervals, cellwise polynomials and quadrature degrees",
     "Tests use one function per norm.",
     ["core/norm.py", "core/quadrature.py", "core/mesh.py"],
     [("L1Norm, L2Norm, Linf norm", "core/norm.py")],
     ["norm values"])

prop("C20", "Interpolation, averaging and coarsening are faithful",
     "Cell averages of a polynomial of degree within the quadrature's exactness equal the exact means, nodal interpolation reproduces functions at the nodes, and initial solutions of all solvers are built so. Temporal interpolation returns the recorded value at recorded times, is linear between and constant outside; coarsening a vector by a degree averages consecutive blocks, conserving the mean, and rejects non-divisible lengths.",
     ["inputs", "configurations"],
     "all meshes, functions, time grids, coarsening degrees, scalar and system valued",
     "Tests use one example each.",
     ["core/interpolate.py", "core/vector_coarsener.py", FV + "space.py", FE + "space.py"],
     [("CellAverageInterpolator", "core/interpolate.py"), ("TemporalInterpolator", "core/interpolate.py"), ("VectorCoarsener", "core/vector_coarsener.py")],
     ["interpolated arrays, initial solutions"])

prop("C21", "Lagrange finite element space is a nodal, continuous, periodic basis",
     "For every mesh size and degree the local basis satisfies the Kronecker property and partition of unity with derivatives summing to zero, finite element functions interpolate their degrees of freedom at the grid points, are continuous across cells including the periodic seam, and the global numbering covers each of mesh size times degree degrees of freedom exactly once per node. Derivatives of elements agree with the exact derivatives of the interpolated polynomials.",
     ["inputs", "configurations"],
     "all mesh sizes, degrees, degrees of freedom and points",
     "Tests use a few meshes with degree one and two.",
     [FE + "space.py", FE + "index_mapping.py"],
     [("LagrangeSpace", FE + "space.py")],
     ["element evaluation, grid, global_index"])

prop("C22", "Finite element matrices equal the exact integrals",
     "For every mesh size and degree at most seven the mass matrix, lumped mass, discrete gradient, artificial diffusion and flux gradients (interpolated and exact, advection and Burgers) equal the integrals defining them; the mass is symmetric positive definite with row sums equal to the lumped mass, the gradient skew symmetric, the artificial diffusion symmetric with non-negative off-diagonal entries and zero row sums.",
     ["inputs", "configurations"],
     "all mesh sizes including one and two cells with wrap around neighbours, degrees, states",
     "Tests check a handful of entries for two meshes.",
     [FE + "mass.py", FE + "lumped_mass.py", FE + "discrete_gradient.py", FE + "artificial_diffusion.py", FE + "flux_gradient.py", FE + "discrete_l2_product.py", FE + "system.py"],
     [("assembly via local quadrature", FE + "discrete_l2_product.py")],
     ["matrix entries, flux gradient vectors"])

prop("C23", "System matrices and vectors stay coherent under any operation order",
     "After any sequence of setting values, updating, assembling, multiplying and solving, a system matrix returns products and solutions belonging to its latest values, solving inverts multiplication, and an assembled or approximated system vector (flux gradient, flux approximation) belongs to the latest degrees of freedom.",
     ["histories", "inputs"],
     "all operation sequences up to a depth on small matrices",
     "Stale factorizations need sequences; tests call one operation after construction.",
     ["core/system.py", FE + "system.py"],
     [("SystemMatrix", "core/system.py")],
     ["dot, inverse, values"],
     [("lazy factorization", "solver object of the inverse", "core/system.py")])

prop("C24", "Neighbour mappings and local bounds are exact",
     "Neighbour indices of cells and finite element nodes contain the index itself and exactly those sharing an interface or cell, wrapping around if and only if periodic, and are symmetric. Local maximum and minimum of a vector equal the maximum and minimum over these neighbours for every vector.",
     ["inputs", "configurations"],
     "all mesh sizes from the smallest, degrees, periodic or not, all vectors over an alphabet",
     "Tests use one or two sizes; wrap around on tiny meshes is special.",
     ["core/index_mapping.py", FV + "index_mapping.py", FE + "index_mapping.py", "core/local_bounds.py"],
     [("NeighbourIndicesMapping", FV + "index_mapping.py"), ("LocalMaximum", "core/local_bounds.py")],
     ["index arrays, bounds"])

prop("C25", "Benchmarks are what they claim",
     "Each benchmark's exact solution equals its initial data at the start time, is periodic where the boundary is, and solves its equation: constant along the characteristics for advection and Burgers, steady for the steady shallow water benchmarks, and for the dam break consisting of admissible rarefaction and shock that satisfy the Rankine-Hugoniot conditions and conserve mass. Heights are positive and the declared parameters appear in the data.",
     ["inputs", "configurations"],
     "all benchmarks, parameters over a grid, points and times",
     "Only a few benchmarks are tested at single points.",
     ["benchmark/advection.py", "benchmark/burgers.py", "benchmark/shallow_water.py"],
     [("exact_solution", "benchmark/")],
     ["initial_data, exact_solution, bathymetry"])

prop("C26", "Random benchmarks are reproducible and respect given parameters",
     "A random oscillation benchmark is a function of its seed and the parameters given; every parameter given, including zero, appears unchanged, all others lie in their documented ranges. A generator with a seed yields the same sequence of benchmarks each time, each with the requested end time and overrides, and a given seed (including zero) yields exactly the benchmark of this seed.",
     ["inputs", "histories"],
     "all seeds of a range, all subsets of overridden parameters, all call sequences of the generator",
     "Tests use one seed.",
     ["benchmark/shallow_water.py"],
     [("RandomOscillationNoTopographyBenchmark", "benchmark/shallow_water.py"), ("RandomBenchmarkGenerator", "benchmark/shallow_water.py")],
     ["attributes, initial_data"])

prop("C27", "Generated training data pair coarse inputs with the exact subgrid flux",
     "For every benchmark sequence, solver whose flux at a node is determined by the neighbouring cells (all but mcl, see the known finding), coarsening degree, input radius, node index and append mode, each generated row holds the coarse values left and right of the node in order and the subgrid flux, i.e. the fine flux at the node minus the coarse flux of the averaged values, at the same time, one row per time of the fine solution. The file holds one header followed by the rows of all calls in order (a run without append starts a new file), the requested number of random benchmarks of the given end time and seed is used and their parameters are written beside the data in the same order, and repeating with the same seed gives the same files.",
     ["inputs", "histories", "configurations"],
     "all small meshes, degrees, radii, nodes, seeds, sequences of overwriting and appending runs",
     "Tests check one configuration of the in-memory classes and none of the file sequence.",
     ["command/generate_data.py", "core/discrete_solution.py", FV + "numerical_flux.py"],
     [("subgrid flux generator", "command/generate_data.py")],
     ["CSV files, data frames"])

prop("C28", "Error evolution compares solutions at the same time",
     "The error between two solutions with history is, at every time of the result, the L2 norm of their difference divided by the L2 norm of the reference solution, component by component, where the result has the times of the longer history and the shorter one is interpolated linearly in time; it vanishes for equal solutions and scales with the difference. Averages over several evolutions are the mean of all of them, interpolated to the times of the one with the fewest times; without any evolution there is only a warning. A series runs both solvers on the same benchmark for each random initial condition of the seed, and a failing computation drops its own benchmark only.",
     ["inputs", "histories", "configurations"],
     "all pairs of histories of different lengths and time grids, all numbers of benchmarks including failing ones",
     "Tests use one pair.",
     ["command/error_evolution.py", "core/interpolate.py", "core/norm.py"],
     [("ErrorEvolutionCalculator", "command/error_evolution.py")],
     ["times and errors"])

prop("C29", "Errors and experimental orders of convergence are computed correctly",
     "For each refinement the eoc tables report the number of degrees of freedom, the L1, L2 and Linf error between the discrete solution and the exact solution at end time (midpoint quadrature for finite volumes, Gauss quadrature with degree + 1 points per cell for finite elements, maximum over ten points per cell), and as eoc log2 of the ratio of the errors of successive refinements, first row empty; -r is the number of meshes, each with twice the cells of the one before. The observed orders approach the design order of each scheme on smooth problems.",
     ["inputs", "configurations"],
     "all solvers, benchmarks with exact solution, initial mesh sizes and refinement numbers within bounds",
     "No test covers the eoc command.",
     ["command/error.py", "core/norm.py"],
     [("EOCCalculator", "command/error.py")],
     ["data frames, calculator results"])

prop("C30", "Command line arguments reach solver and command unchanged",
     "For every command line accepted by the parser, the command executed has the benchmark, end time and task options given, and the solvers in the given order with exactly the options given to each of them (mesh size, cfl number, name, short, integrator, flux, degree, gamma, adaptivity, history), defaults otherwise; names, shorts or fluxes equal to solver keys do not start a new solver. Parsing is independent of what was parsed before.",
     ["inputs", "histories"],
     "all sequences of solver specifications up to a length over all option subsets, all commands, all orders of parses in one process",
     "Tests do not touch the parser.",
     ["command/calculate.py", "core/solver.py", "parser.py", "command/plot.py", "command/animate.py", "command/parameter_variation_test.py", "command/generate_data.py"],
     [("SolverAction", "core/solver.py"), ("postprocess", "command/calculate.py")],
     ["namespace returned by the parser, constructed solvers"])

prop("C31", "Reduced models add the network's subgrid flux to the base flux",
     "The flux of a reduced solver is the base flux (including its bottom source exactly once) plus the network's prediction for the stencil of input dimension values in order, with opposite signs on both sides of a node. Predictions scale inputs and outputs with the stored scalers, do not depend on batch composition, and completely saving then loading parameters and scalers restores identical predictions.",
     ["inputs", "configurations", "histories"],
     "all states, stencils and networks over small alphabets, sequences of fit, save, load, predict",
     "Tests do not combine flux, scaler and persistence.",
     [SWS + "reduced_model.py", SWS + "reduced_llf.py", SWS + "reduced_llf_2.py", FV + "numerical_flux.py"],
     [("ReducedFluxGetter", SWS + "reduced_model.py"), ("ReducedNetwork", SWS + "reduced_model.py")],
     ["flux values, predictions"])

prop("C32", "Curvature analysis and filtering classify rows correctly",
     "The curvature of a data row of four values u0..u3 with step length s is the mean over its two consecutive triples of |u0 - 2 u1 + u2| s / (s^2 + 0.25 (u0 - u2)^2)^1.5, for height and discharge separately. Deleting by curvature keeps exactly the rows with both curvatures strictly below their thresholds, unchanged and in order, and the analysis commands report and plot statistics of exactly the columns and rows of the files they are given.",
     ["inputs", "configurations"],
     "all small data sets over an alphabet, thresholds at, below and above the row values",
     "Tests do not cover these commands.",
     ["command/delete_curvature.py", "command/analyze_curvature.py", "command/analyze_data.py", SWS + "reduced_model.py"],
     [("Curvature", "command/delete_curvature.py")],
     ["files and returned arrays"])

prop("C33", "Training uses the data it is given",
     "Training a network reads the data file, takes every skip-th row starting with the first, splits each row into inputs and subgrid flux (the last two columns), fits scalers and network on exactly these rows with the options given, asks whether to save if confirmation is requested (otherwise, and if the answer is yes, it saves) and saves all parameters, scalers and the losses it plots; resuming continues with stored parameters, and with a fixed seed training is reproducible.",
     ["inputs", "configurations", "histories"],
     "all small data files, skips, and sequences of train and resume",
     "Tests do not cover training.",
     ["command/train_network.py", SWS + "reduced_model.py"],
     [("TrainNetwork", "command/train_network.py")],
     ["arrays handed to fit, saved files"])

prop("C34", "Parameter variation tests run every variation with its parameter",
     "For each requested variation and each of its values, the series run by the parameter-variation-test command uses random benchmarks with this parameter set to this value, the same seed, number of initial conditions and end time, and stores its error plots, averages and, as requested, plots and animations below the given directory under the variation's name and value, reference runs under their own; nothing else is overwritten, and a failing computation drops its own benchmark only.",
     ["configurations", "histories"],
     "all subsets of variations, with and without references, numbers of initial data",
     "Tests do not cover the command.",
     ["command/parameter_variation_test.py", "command/error_evolution.py"],
     [("ParameterVariationTest", "command/parameter_variation_test.py")],
     ["series constructed, files written"])

prop("C35", "Plots and animations show the computed solution",
     "The data plotted, animated and saved for each solver are exactly its grid and solution values (for shallow water height plus bottom, discharge and velocity), labelled with its short name (repeated names are numbered in saved data), together with exact and initial data sampled on the plot grid as requested; animations have at least the requested number of time steps and show at every frame the solution interpolated linearly to the frame's time; an animation, shown or saved, lasts as long as requested. Nothing to plot only yields a warning.",
     ["inputs", "configurations"],
     "all solver lists, benchmarks, mesh sizes and options within bounds",
     "Tests do not cover plotting.",
     ["command/plot.py", "command/animate.py"],
     [("Plotter", "command/plot.py"), ("Animator", "command/animate.py")],
     ["saved pickle files, line data"])

prop("C36", "Shallow water physics and Riemann solver are correct for all states",
     "Velocity is discharge over height and finite for dry states, the physical flux and entropy quantities match their formulas, negative heights raise ValueError, and wave speeds bound all characteristic speeds of both neighbours and are symmetric (maximum speed) or one-sided (HLL). The Riemann solver's flux and intermediate state satisfy the integral conservation relations over the wave fan for every pair of states.",
     ["inputs"],
     "all pairs of states including dry, tiny, supercritical ones and all gravitational accelerations",
     "Tests use single vectors.",
     [SW + "core.py", "core/riemann_solver.py", SC + "core.py"],
     [("RiemannSolver", "core/riemann_solver.py"), ("Flux, WaveSpeed", SW + "core.py")],
     ["function values"])

prop("C37", "Scalar finite volume solvers compute the published schemes",
     "For advection and Burgers the llf, central and mcl-fv solvers compute, step by step, the local Lax-Friedrichs, central and monolithic convex limiting scheme: central flux minus half the maximum wave speed times the jump, plus for mcl-fv the antidiffusive flux limited to the bounds of the neighbouring cells, combined with the chosen integrator and uniform time steps cfl number times step length.",
     ["inputs", "histories", "configurations"],
     "all initial states over an alphabet, mesh sizes, boundary conditions, integrators, cfl numbers and steps",
     "Tests check one right hand side per scheme.",
     [SC + "solver/llf.py", SC + "solver/mcl.py", SC + "core.py", "core/riemann_solver.py", FV + "numerical_flux.py", FV + "solver.py"],
     [("flux getters", SC + "solver/")],
     ["solution after each step"])

prop("C38", "Shallow water solvers compute the published schemes",
     "The llf, lw, central, low-order, es, es1, antidiffusion, mcl and coarse solvers compute, step by step, the schemes they document (fluxes, bottom source, positivity fix, convex limiting with the bounds of the bar states, antidiffusion, coarsening of a fine solution), for every boundary condition and integrator.",
     ["inputs", "histories", "configurations"],
     "all initial states over an alphabet, bathymetries, mesh sizes, boundary conditions, integrators, gravitational accelerations and steps",
     "Tests check one right hand side per scheme.",
     [SWS + "mcl.py", SWS + "low_order.py", SWS + "energy_stable.py", SWS + "lax_wendroff.py", SWS + "antidiffusion.py", SWS + "coarse.py", SW + "numerical_flux.py"],
     [("flux getters", SWS)],
     ["solution after each step"])

prop("C39", "Scalar finite element solvers compute the published schemes",
     "For every polynomial degree at most seven the cg, cg-low and mcl-fem solvers compute, step by step, the Galerkin scheme with consistent mass, the low order scheme with lumped mass and artificial diffusion, and its convex limited antidiffusive correction, with the optimal integrator of the degree for cg and time steps cfl number times step length (cg) or times the optimal step (cg-low, mcl-fem).",
     ["inputs", "histories", "configurations"],
     "all initial states over an alphabet, mesh sizes, degrees, integrators and steps",
     "Tests check one right hand side per scheme.",
     [FE + "scalar/solver/cg.py", FE + "scalar/solver/cg_low.py", FE + "scalar/solver/mcl.py", FE + "ode_solver.py", FE + "flux_approximation.py"],
     [("right hand sides", FE + "scalar/solver/")],
     ["solution after each step"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
