NOTE = ("For every value of the symbolic inputs within the stated bounds, on "
        "every feasible path, z3 shows the claim (or its negation "
        "unsatisfiable); floats are modelled as exact reals; numpy/scipy "
        "primitives are modelled and the model is validated by replaying "
        "solver-generated witnesses on the unmodified code. ")


def P(id, title, statement, over, quant, why, files, mech, note="", **k):
    return dict(id=id, title=title, statement=statement, over=over,
                quant=quant, why=why, files=files, mech=mech,
                note=NOTE + note, **k)


PROPS = [
    P("P01", "Goos expressions: values and exact gradients",
      "For every expression built from goos math nodes (sum, difference, "
      "product, quotient, power, dot, norm, abs, max, sigmoid, slice, "
      "conjugate, cast, rename, constants, with scalars broadcast against "
      "arrays) and all values of its variables, get() is the mathematical "
      "value and get_grad() is the exact derivative by each variable (the "
      "Wirtinger derivative for complex inputs), however often and in "
      "whatever combination a variable is used. A variable the expression "
      "does not use has zero gradient, and evaluating changes no variable.",
      ["inputs", "programs"],
      "all DAGs of up to 3 sum/product nodes and every other node type, all "
      "variable values in a box away from kinks",
      "tests evaluate each node at one or two points, mostly with a single "
      "use of each variable; gradients of reused, aliased or broadcast "
      "operands are never compared with the derivative",
      ["spins/goos/math.py", "spins/goos/flows.py", "spins/goos/generic.py"],
      [("Sum/Product/Power/Norm/... eval and grad", "spins/goos/math.py"),
       ("NumericFlow.Grad accumulation", "spins/goos/flows.py"),
       ("variable registration", "spins/goos/optplan/optplan.py")]),
    P("P02", "Goos graph executor: any graph, any schedule, one result",
      "For every acyclic graph of nodes, every choice of which nodes are "
      "heavy (run in parallel) and every order in which parallel tasks run, "
      "evaluation gives each requested output the value of the plain "
      "recursive definition and evaluates every needed node exactly once. "
      "The reverse pass gives every variable and intermediate node the sum "
      "of the gradients over all paths, a None gradient counts as zero, and "
      "nodes are told correctly which of their inputs are constant or "
      "frozen.",
      ["schedules", "inputs", "programs"],
      "all DAGs of 3-4 binary nodes over 2 variables, all heavy subsets, all "
      "task orders, all frozen subsets, symbolic coefficients and values",
      "the tests run two small graphs without parallel nodes in a chain and "
      "with one schedule",
      ["spins/goos/graph_executor.py", "spins/goos/flows.py",
       "spins/goos/array.py", "spins/goos/optplan/optplan.py"],
      [("eval_fun/eval_grad/_top_sort_affinity",
        "spins/goos/graph_executor.py"),
       ("Flow/Grad/ConstFlags", "spins/goos/flows.py"),
       ("ArrayFlow, IndexOp", "spins/goos/array.py")],
      "Parallel tasks are atomic in the model."),
    P("P03", "Goos plan state changes only by actions and resumes exactly",
      "The state of a plan (values, frozen flags and bounds of its variables) "
      "changes only while its actions run, in order and each exactly once; a "
      "frozen variable cannot be set and a parameter cannot be thawed. Every "
      "event writes one log file with the state and monitor values of that "
      "moment and every finished action one checkpoint; resuming an equal "
      "plan from any of these files finishes with exactly the state of an "
      "uninterrupted run and continues the log.",
      ["histories", "crash_points", "inputs"],
      "all sequences of 3 (thorough 4) actions, all values, interruption at "
      "every event and action boundary",
      "one test resumes one plan from one step file; the property concerns "
      "every action sequence and every interruption point",
      ["spins/goos/optplan/optplan.py", "spins/goos/math.py"],
      [("run/resume/write_event/write_checkpoint/read_checkpoint",
        "spins/goos/optplan/optplan.py"),
       ("SetVariable/FreezeVariable/ThawVariable", "spins/goos/math.py")]),
    P("P04", "Goos optimizer hands scipy exactly the user's problem",
      "Whatever points the numerical optimiser queries in whatever order, the "
      "objective, gradient, equality and inequality constraints (with the "
      "sign g(x) <= 0) and their gradients it sees are those of the user's "
      "functions at these values of the thawed variables. The start point and "
      "bounds belong to the right elements, frozen variables never change, "
      "the returned point is written back in the original shapes, every "
      "iteration logs monitors at its own iterate with the right iteration "
      "number, and a resumed run continues from the checkpoint with the "
      "remaining iterations.",
      ["inputs", "histories", "configurations"],
      "all values, bounds and query points; any frozen subset of three "
      "variables of different shapes; several constraints; any resume point",
      "tests run scipy on one-variable problems with at most one constraint "
      "and check only the optimum",
      ["spins/goos/optimize.py"],
      [("ScipyOptimizer.run/resume", "spins/goos/optimize.py")],
      "scipy.optimize.minimize is replaced by an arbitrary optimiser."),
    P("P05", "Saving and loading a goos plan preserves its meaning",
      "A plan that is saved and loaded again (also repeatedly) has the same "
      "nodes under the same names, with the same values, gradients, bounds "
      "and sharing of subexpressions, and its actions and optimiser settings "
      "run to the same result. Arrays of every shape, real or complex, come "
      "back exactly, saving does not change the plan, and two different "
      "nodes with one name are refused.",
      ["inputs", "programs"],
      "every math node of P01, all sequences of 3 actions, all optimiser "
      "settings, all array values",
      "tests save and load a handful of literal plans; the guarantee is for "
      "every node type and value",
      ["spins/goos/optplan/schema.py", "spins/goos/optplan/schema_types.py",
       "spins/goos/optplan/optplan.py", "spins/goos/generic.py"],
      [("dumps/loads/_iter_optplan_fields", "spins/goos/optplan/schema.py"),
       ("ComplexNumberType/NumpyArrayType",
        "spins/goos/optplan/schema_types.py"),
       ("save/load", "spins/goos/optplan/optplan.py"),
       ("CastSchema/build_cast_op", "spins/goos/generic.py")],
      "A number written to JSON is taken to be read back exactly."),
    P("P06", "Goos shapes: drawing order, exact gradients, pixel geometry",
      "For every collection of goos shapes (cuboid, cylinder, sphere, "
      "pixelated, translated, renamed, in groups nested to any depth), "
      "evaluation yields the shapes flattened in drawing order: ascending "
      "priority, equal priorities in the given order, with exactly the "
      "positions, sizes, materials and pixel values of their inputs. The "
      "gradient by every input is the sum over all places it is used, "
      "whatever the order and nesting. Each field of a shape is reported "
      "constant or frozen exactly when its input is. Pixel edges tile the "
      "extents, pixel centres lie between them, and the array shape is the "
      "number of pixels.",
      ["inputs", "programs"],
      "groups of up to 4 shapes nested up to 3 deep with every priority "
      "pattern, all parameters symbolic; all ratios of extent to pixel size "
      "up to 4",
      "tests check two fixed priority orders and one gradient; sharing, "
      "nesting and ties are sampled only at single points",
      ["spins/goos/shapes.py", "spins/goos/array.py", "spins/goos/flows.py"],
      [("GroupShape, TranslateShape, shape nodes", "spins/goos/shapes.py"),
       ("ArrayFlow and its gradient", "spins/goos/array.py"),
       ("Flow.Grad.__iadd__", "spins/goos/flows.py")],
      "Rounding of extents / pixel_size is not modelled."),
    P("P07", "Maxwell rendering: permittivity averages and exact adjoint",
      "maxwell.RenderShape gives every field component of every cell the "
      "volume average of the permittivity over that component's dual cell: "
      "background, cuboids and cylinders in drawing order, and pixelated "
      "shapes with each pixel interpolating linearly between its two "
      "materials, wherever the shape lies, also partly outside the region. "
      "The gradient it returns for the pixel values is the exact adjoint of "
      "this linear map, for real and complex materials and fields. The mesh "
      "is uniform, centred on the region and of the requested size (even "
      "number of cells along symmetric axes), and create_region_slices "
      "selects every cell inside a region and only cells that touch it.",
      ["inputs", "configurations"],
      "all pixel values and field gradients on regions of up to 3x2x2 cells, "
      "shape positions symbolic along each axis, all 1D pixel/cell edge "
      "positions up to 3x3",
      "tests render a few symmetric placements; partial coverage, cut-off "
      "pixels and the adjoint relation hold for all placements only by "
      "argument",
      ["spins/goos_sim/maxwell/render.py",
       "spins/goos_sim/maxwell/simspace.py", "spins/gridlock/grid.py"],
      [("RenderShape, get_rendering_matrix_1d",
        "spins/goos_sim/maxwell/render.py"),
       ("create_edge_coords, create_region_slices",
        "spins/goos_sim/maxwell/simspace.py")],
      "A shape drawn over an earlier pixelated shape and rotations are "
      "outside the claim."),
    P("P08", "Rasterisation gives the exact covered fraction of every cell",
      "raster_1D and raster_2D give each cell of any (non-uniform) grid "
      "exactly the fraction of it that the segment or polygon covers: for "
      "any segment in either direction, any rectangle in any vertex order, "
      "and convex polygons at any offset, including shapes that cover many "
      "cells, lie in one cell, touch cell edges, or lie partly or entirely "
      "outside of the grid.",
      ["inputs"],
      "all edges of 1D grids of up to 3 cells and all segments; all "
      "rectangles on grids of up to 3x2 cells; 5 convex polygons at all "
      "offsets on fixed non-uniform grids",
      "tests draw a dozen polygons; coincident edges, clipping and degenerate "
      "overlaps form a continuum of cases",
      ["spins/gridlock/float_raster.py"],
      [("raster_1D, raster_2D, _expand_polygon_vertices",
        "spins/gridlock/float_raster.py")],
      "Polygons of zero area are outside the claim."),
    P("P09", "gridlock.Grid: cells, index lookup and drawing",
      "For any edge coordinates (in any order) a Grid reports consistent "
      "edges, centres, widths, ghost cells and shifted (Yee) versions; "
      "pos2ind finds the cell that contains a position and refuses "
      "positions outside, and ind2pos is the centre of that cell. After "
      "drawing cuboids, slabs and fills, render gives every component of "
      "every cell the volume average of the permittivities over its dual "
      "cell, where the shape drawn last wins and the background fills the "
      "rest, whatever the positions, extrusion direction and number of "
      "renders; clear and copy leave no trace of earlier shapes.",
      ["inputs", "configurations", "histories"],
      "all edge positions for geometry and lookup; all positions and widths "
      "of shapes along each axis, 2-3 overlapping cuboids, symbolic complex "
      "permittivities",
      "tests render a handful of aligned cuboids; partial cells, ghost cells, "
      "overlaps and negative or fractional coordinates are not covered",
      ["spins/gridlock/grid.py", "spins/gridlock/direction.py",
       "spins/gridlock/float_raster.py"],
      [("Grid.render, draw_*, fill_*, pos2ind, ind2pos, shifted_exyz",
        "spins/gridlock/grid.py")],
      "gdspy's boolean operation is modelled as exact; plotting helpers "
      "(get_slice, visualize_*) are not claimed."),
    P("P10", "Discrete curl, Bloch boundaries and Poynting operators",
      "On every Yee grid the sparse and functional curl operators equal the "
      "explicit Yee finite differences with the requested Bloch phase at the "
      "periodic boundary, are mutually adjoint, and have zero discrete "
      "divergence. Vectorising and unvectorising fields is lossless in "
      "column-major order, and the Poynting operators satisfy the discrete "
      "Poynting theorem and the cross product they document.",
      ["inputs", "configurations"],
      "all cell widths, complex field values, Bloch vectors and small grid "
      "shapes",
      "the tests compare a few random fields on one or two uniform grids; the "
      "identities are claimed for every non-uniform grid, field and Bloch "
      "vector",
      ["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py",
       "spins/fdfd_tools/vectorization.py"],
      [("curl_e/curl_h, deriv_*_shift, rotation_bloch_shift",
        "spins/fdfd_tools/operators.py"),
       ("vec/unvec", "spins/fdfd_tools/vectorization.py"),
       ("poynting_*_cross", "spins/fdfd_tools/operators.py")]),
    P("P11", "E-only, H-only and coupled wave operators describe one system",
      "For every grid, frequency, material distribution, Bloch vector and "
      "conductor mask, the E-only, H-only and coupled EH wave operators and "
      "the E-to-H, H-to-E and M-to-J conversions are the same discrete Maxwell "
      "system: eliminating one field from the coupled operator gives exactly "
      "the single-field operator. The functional forms agree with the matrix "
      "forms, and the documented preconditioners make the E operator "
      "complex-symmetric.",
      ["inputs", "configurations"],
      "all cell widths, permittivities, permeabilities, real and complex "
      "frequencies, Bloch vectors, conductor masks and fields on small grids",
      "tests evaluate single random cases without permeability or conductors; "
      "several operator variants are never executed by a test",
      ["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py"],
      [("e_full/h_full/eh_full/e2h/h2e/m2j/e_full_preconditioners",
        "spins/fdfd_tools/operators.py"),
       ("functional e_full/eh_full/e2h", "spins/fdfd_tools/functional.py")]),
    P("P12", "Stretched-coordinate absorbing boundaries (SCPML)",
      "For every grid spacing, frequency and number of layers on each of the "
      "six sides, applying absorbing boundaries multiplies the width of each "
      "cell in a layer by 1 + i times the documented polynomial conductivity "
      "profile at that cell's depth (half a cell apart on the two Yee grids, "
      "scaled by the physical thickness of the layer), leaves every other "
      "cell and axis exactly as it was, keeps the real widths, always "
      "absorbs, and does not change the spacing that was passed in. The same "
      "holds for stretching one side, with any thickness including none, and "
      "for the uniform-grid generator.",
      ["inputs", "configurations"],
      "all cell widths, frequencies (real or complex), effective "
      "permittivities, reflectances and layer counts on up to four cells per "
      "axis, polynomial orders 1-4",
      "the tests evaluate one uniform grid with one layer count; non-uniform "
      "layers, one-sided layers, zero thickness and each axis/side "
      "combination are never run",
      ["spins/fdfd_tools/grid.py"],
      [("apply_scpml, stretch_with_scpml, uniform_grid_scpml, "
        "prepare_s_function", "spins/fdfd_tools/grid.py")]),
    P("P14", "Local FDFD solvers and simulations solve Maxwell and its adjoint",
      "Whatever the grid, frequency, permittivity, permeability, conductor "
      "masks, absorbing layers, Bloch vector and source, the field returned "
      "by a local solver satisfies the discrete equation (curl 1/mu curl - "
      "w^2 eps) E = -i w J, and with adjoint=True the Hermitian-adjoint "
      "equation. FdfdSimulation and AdjointFdfdSimulation pose exactly that "
      "system for the permittivity background + selection matrix * z and "
      "leave their inputs unchanged, also on complex grids, and their caches "
      "never return the fields of another structure or source, even when the "
      "caller reuses its arrays. Options a solver does not support are "
      "refused.",
      ["inputs", "configurations", "histories"],
      "all widths, materials, frequencies, sources, Bloch vectors and "
      "matrix-solver answers on small grids; all orders of 3 cached requests",
      "the tests solve one or two fixed problems in free space; the adjoint "
      "with materials, complex widths, Bloch vectors or conductors is not "
      "tested, nor are caches under reuse",
      ["spins/fdfd_solvers/local_matrix_solvers.py",
       "spins/fdfd_tools/solvers.py", "spins/invdes/problem/simulation.py"],
      [("LocalMatrixSolver.solve",
        "spins/fdfd_solvers/local_matrix_solvers.py"),
       ("generic", "spins/fdfd_tools/solvers.py"),
       ("FdfdSimulation, AdjointFdfdSimulation",
        "spins/invdes/problem/simulation.py")],
      "The sparse matrix solver itself (SuperLU, BiCG) is assumed to solve "
      "the equation it is given."),
    P("P16", "invdes objective algebra: values and exact gradients",
      "Every expression built from the objective nodes of "
      "spins.invdes.problem (variables, constants, sums, products, "
      "differences, negation, powers, absolute value, real part, one- and "
      "two-sided threshold penalties, log-sum-exp and softmax averages, "
      "indexing, parameters) with scalars, arrays or "
      "functions on either side evaluates to the mathematical expression, "
      "and its gradient is the exact derivative with respect to the "
      "parametrization. Evaluation order and repetition do not matter and "
      "parameters are left unchanged. OptimizationProblem reports its "
      "objective, equality and inequality constraints with the matching "
      "gradients.",
      ["inputs", "programs"],
      "all inputs and constants of each node type; every wiring of three "
      "binary operations; up to two constraints of each kind",
      "tests sample a few expressions at a few points; mixed scalar/vector "
      "expressions, reflected operators and reuse of subexpressions are not "
      "covered",
      ["spins/invdes/problem/objective.py",
       "spins/invdes/problem/graph_executor.py"],
      [("OptimizationFunction, Sum, Product, Power, AbsoluteValue, "
        "Indicator*, OptimizationProblem",
        "spins/invdes/problem/objective.py")],
      "Kinks of abs and of the indicators are excluded."),
    P("P17", "invdes graph executor: chain rule on any graph and schedule",
      "For every directed acyclic graph of optimization functions (shared "
      "subexpressions, repeated inputs, several outputs, functions that only "
      "implement the old whole-function interface), evaluating it calls "
      "every needed node exactly once with the values of its own inputs, and "
      "the gradient is the sum over all paths of the products of the local "
      "derivatives, whatever the types of the partial gradients. Heavy nodes "
      "that run in parallel change neither results nor errors under any "
      "completion order.",
      ["inputs", "programs", "schedules"],
      "every wiring of up to 3 (thorough 4) nodes with symbolic local "
      "derivatives, up to 3 heavy nodes completing in every order",
      "tests run one or two fixed graphs with one schedule",
      ["spins/invdes/problem/graph_executor.py",
       "spins/invdes/problem/objective.py"],
      [("eval_fun, eval_grad", "spins/invdes/problem/graph_executor.py")],
      "Thread pools are replaced by a scheduler that completes the submitted "
      "work in every order."),
    P("P15", "invdes simulation nodes: fields and exact adjoint gradients",
      "For every structure, background permittivity (real or lossy), "
      "selection matrix, grid, wavelength, source, Bloch vector and overlap "
      "vector, the simulation nodes of an invdes problem ask the solver for "
      "exactly the system eps_bg + S x at 2 pi / wavelength with the space's "
      "grid, absorbing layers and source, and the gradient of an overlap "
      "magnitude is the exact adjoint-method derivative: one adjoint solve "
      "of the same system with the matching source, combined with the "
      "forward field. This holds for several simulations in any parallel "
      "schedule and for any sequence of structures: a cached field is only "
      "used for the structure and source it was computed for. Overlap, phase "
      "overlap, permittivity-difference, Fit2Eps and fabrication objectives "
      "report their documented value and its exact gradient.",
      ["inputs", "schedules", "histories"],
      "all permittivities, widths, wavelengths, sources, overlap vectors, "
      "solver answers and structures on grids of up to 4 cells; two parallel "
      "simulations in every order; every order of 3 structures",
      "tests compare one finite difference on one 3x3 grid; lossy "
      "backgrounds, Bloch vectors, parallel simulations, cache reuse and the "
      "objective classes are not covered",
      ["spins/invdes/problem_graph/creator_em.py",
       "spins/invdes/problem/emobjective.py",
       "spins/invdes/problem/structure_objectives.py"],
      [("FdfdSimulation, Epsilon, OverlapFunction, DiffEpsilon",
        "spins/invdes/problem_graph/creator_em.py"),
       ("Overlap, PhaseOverlapObjective",
        "spins/invdes/problem/emobjective.py"),
       ("Fit2Eps, FabricationConstraint",
        "spins/invdes/problem/structure_objectives.py")],
      "Solver answers are symbolic; that solvers solve what they are given "
      "is P14. BasicOverlapObjective (deprecated) is not claimed."),
    P("P13", "goos simulation nodes: system, outputs and exact gradients",
      "For every permittivity (real or complex) produced by a goos graph, a "
      "simulation node asks its solver for exactly that permittivity on the "
      "simulation space's grid at 2 pi / wavelength, with the absorbing "
      "layers, reflection symmetry and the sum of its sources' currents, "
      "each built for the region, direction, mode and power it was declared "
      "with. Its outputs are the permittivity, the solver's field and the "
      "mode overlaps of that field, and the gradient of any function of any "
      "subset of the outputs is the exact adjoint-method derivative, from "
      "one adjoint solve of the same structure. Whatever the sequence of "
      "structures, values and gradients belong to the current one, and "
      "simulations run in parallel give the same results in every schedule.",
      ["inputs", "programs", "schedules", "histories"],
      "all permittivities, source currents, solver answers and objective "
      "derivatives on grids of up to 6 (thorough 12) cells; all axes and "
      "both directions; every used subset of two overlaps; sequences of 3 "
      "structures; two parallel simulations in every order",
      "tests compare one finite difference of one simulation; unused "
      "outputs, real permittivity, several sources, symmetry and sequences "
      "of structures are not covered",
      ["spins/goos_sim/maxwell/simulate.py", "spins/fdfd_solvers/dipole.py"],
      [("SimulateNode, WaveguideModeSource, GaussianSource, DipoleSource, "
        "WaveguideModeOverlap, ElectricField, Epsilon",
        "spins/goos_sim/maxwell/simulate.py"),
       ("build_dipole_source", "spins/fdfd_solvers/dipole.py")],
      "Mode and beam profiles and solver answers are given; eigenmode "
      "simulations and sources normalized by an extra simulation are not "
      "claimed."),
    P("P18", "Constrained optimizers pose exactly the problem they are given",
      "For every objective, equality and inequality constraints and every "
      "point: ScipyOptimizer hands scipy the problem's starting point, "
      "value, gradient, bounds (its own override the parametrization's) "
      "and, for methods that take them, every constraint with its "
      "derivative in scipy's sign convention, its own constraints included, "
      "and stores scipy's answer. The slack form of a problem has one "
      "non-negative variable per inequality, the same objective, exact "
      "gradients and survives serialization. PenaltyOptimizer minimizes "
      "objective + mu * sum(constraint**pf) with mu := mu**tau after each "
      "cycle; AugmentedLagrangianOptimizer follows Algorithm 17.4 of "
      "Nocedal: multipliers, mu and tolerances are updated from the "
      "constraint violation and it stops when both tolerances are met. Each "
      "cycle starts where the last ended; the result carries no slack.",
      ["inputs", "programs", "histories"],
      "2 parameters, up to 2 + 2 constraints, all quadratic with symbolic "
      "coefficients; every point the minimizer asks about and returns "
      "symbolic; 2 (thorough 3) cycles; 7 scipy methods; 8 penalty "
      "schedules",
      "tests run a few fixed convex problems to convergence, which a wrong "
      "multiplier, schedule or dropped constraint usually survives",
      ["spins/invdes/optimization/scipy_optimizer.py",
       "spins/invdes/optimization/constrained_optimizer.py",
       "spins/invdes/problem/slack_optimization_problem.py"],
      [("ScipyOptimizer.__call__",
        "spins/invdes/optimization/scipy_optimizer.py"),
       ("PenaltyOptimizer, AugmentedLagrangianOptimizer",
        "spins/invdes/optimization/constrained_optimizer.py"),
       ("SlackOptimizationProblem, SlackParam, SlackRemover, SlackVariable",
        "spins/invdes/problem/slack_optimization_problem.py")],
      "scipy's own minimizers are not analysed: they may ask for any value "
      "at any point and return any point."),
    P("P19", "Parametrizations: structure, exact Jacobian, bounds and state",
      "For every parameter vector, a direct, grating, composite, cubic or "
      "Hermite parametrization yields the structure its description says: "
      "pixels limited to the bounds, the covered fraction of every grating "
      "pixel, the parts in order, the bicubic interpolation of the nodal "
      "values (and derivatives), symmetric or periodic as asked for and "
      "exact for every quadratic polynomial, also on uneven grids. "
      "calculate_gradient is its exact Jacobian, so that gradients of "
      "objectives of the structure are exact; bounds are reported per "
      "parameter. Going through a vector, an encoding or a serialized "
      "object and back restores the same parameters and structure.",
      ["inputs", "programs", "histories"],
      "direct: 3 pixels, every kind of bounds; gratings: up to 4 edges "
      "anywhere around 3 (thorough 4) pixels; composites nested two deep; "
      "cubic and Hermite: coarse grids of 3..7 nodes per axis, uneven "
      "spacing, 16 combinations of symmetry, mirrored and repeated periods, "
      "all parameter values symbolic",
      "tests compare a few random vectors on even grids, mostly without "
      "symmetry; interactions of uneven spacing, periods and mirror "
      "symmetry are not sampled",
      ["spins/invdes/parametrization/parametrization.py",
       "spins/invdes/parametrization/composite_parametrization.py",
       "spins/invdes/parametrization/cubic_utils.py",
       "spins/invdes/parametrization/grating_parametrization.py"],
      [("DirectParam, Parametrization",
        "spins/invdes/parametrization/parametrization.py"),
       ("GratingParam",
        "spins/invdes/parametrization/grating_parametrization.py"),
       ("CompositeParam",
        "spins/invdes/parametrization/composite_parametrization.py"),
       ("CubicParam, HermiteParam",
        "spins/invdes/parametrization/parametrization.py"),
       ("CubicMatrices, makeDmatrix_quad, make_geometry_matrix_cubic, "
        "make_geometry_matrix_hermite",
        "spins/invdes/parametrization/cubic_utils.py")],
      "Edges exactly on a pixel border are outside the derivative claim."),
    P("P20", "Gradient-descent optimizers take exactly the documented steps",
      "For every objective, starting point and bounds, GradientDescent "
      "(plain or normalized), AdaptiveGradientDescent, Adagrad, RmsProp, "
      "Adam and Nag evaluate the gradient at the current (for Nag: the "
      "looked-ahead) feasible point and move to the projection of the "
      "published update rule, whatever was run before: two runs continue "
      "like one. The adaptive step shrinks by the failure factor until the "
      "objective does not grow, grows by the success factor afterwards and "
      "stops at gradients below the tolerance. A run takes exactly the "
      "number of further iterations asked for, never beyond max_iters (0 "
      "means none), and calls back once per iteration; arrays that belong "
      "to the objective are not modified.",
      ["inputs", "histories"],
      "2 parameters with and without bounds; starting point, every gradient "
      "and every objective value symbolic; 3 (thorough 4) iterations in one "
      "or two runs; all limits from 0 to 3; up to 3 trial steps per "
      "adaptive iteration",
      "tests check that a few convex problems converge, which they do with "
      "wrong bias corrections, projections or iteration limits",
      ["spins/invdes/optimization/gradient_descent.py"],
      [("GradientOptimizer.optimize and the iterate methods",
        "spins/invdes/optimization/gradient_descent.py")],
      "Zero gradients are outside the claim where they are normalized; "
      "calling iterate() directly is not claimed for Adam, whose bias "
      "correction counts the iterations of optimize()."),
    P("P21", "Gratings: rendering, gradients, constraints and discretization",
      "For all edges (or widths), levels, axes and polarities a "
      "PixelatedGrating holds in every pixel the covered fraction of the "
      "described height profile and its gradient is exact; BarcodeGrating "
      "has one box per pair of edges. EdgeLocConstraint and "
      "GratingFeatureConstraint are the distances of neighbouring edges and "
      "borders to the minimum feature, with exact derivatives. Discretizing "
      "any continuous grating (discretize_to_pixelated_grating, "
      "GratingEdgeDiscretization) yields, among all gratings with edges on "
      "the fine grid that respect the minimum and maximum feature of every "
      "level, one that is closest to it in the least-squares sense; the "
      "bounds set on widths are those of their level.",
      ["inputs", "programs"],
      "rendering: 3 pixels along the grating, 1..4 along the etch, 3 edges "
      "at any place, 8 sets of etch levels; constraints: 2..4 edges; "
      "discretization: targets of 3 (thorough: 5) pixels with any values, 2 "
      "and 3 levels, up to 5 places per pixel, against every admissible "
      "grating",
      "tests discretize a few chosen vectors and render a few chosen edges; "
      "optimality over all targets cannot be sampled",
      ["spins/goos/grating.py", "spins/invdes/problem/grating.py",
       "spins/invdes/problem_graph/grating.py"],
      [("PixelatedGrating, MultiEtchEdgeParametrization, GratingL2D, "
        "_get_general_edge_loc_dp, EdgeLocConstraint, BarcodeGrating",
        "spins/goos/grating.py"),
       ("GratingFeatureConstraint", "spins/invdes/problem/grating.py"),
       ("GratingEdgeDiscretization, _get_edge_loc_dp",
        "spins/invdes/problem_graph/grating.py")],
      "Edges out of order are not claimed; the first and last segment may "
      "be narrower than the minimum feature (they continue outside)."),
    P("P22", "run_plan executes, logs and resumes optimization plans exactly",
      "run_plan executes the transformations in order; before each one its "
      "parameters are set from the named functions, the optimizer gets the "
      "options of the plan (zeros included, unset ones left to their "
      "defaults) and minimizes the named objective. Every event is logged in "
      "step1.pkl, step2.pkl, ... with the transformation, the design, the "
      "parameters and the monitors at that point, and a checkpoint follows "
      "each transformation. A run interrupted at any file, half written or "
      "not, and resumed (once or twice) leaves the same logs, checkpoints, "
      "design and parameters as a run without interruption, spends the same "
      "number of iterations in total, and a finished plan is not run again. "
      "Penalty optimizations resume with the logged cycle and penalty.",
      ["inputs", "crash points", "histories"],
      "2 transformations out of 5 kinds (thorough: 3), 2 iterations each "
      "(one instance with 9), 2 design variables; one interruption "
      "(thorough: two) at any file; initial values, coefficients, parameters "
      "and step size symbolic",
      "no test runs a plan at all, and the state after an interruption "
      "depends on where it happened",
      ["spins/invdes/problem_graph/solver.py",
       "spins/invdes/problem_graph/workspace.py",
       "spins/invdes/problem_graph/creator_opt.py"],
      [("run_plan, restore_workspace",
        "spins/invdes/problem_graph/solver.py"),
       ("Workspace.run, _set_parameters, Logger, get_latest_log_file",
        "spins/invdes/problem_graph/workspace.py"),
       ("ScipyOptimizer, PenaltyOptimizer, CubicParamSigmoidStrength",
        "spins/invdes/problem_graph/creator_opt.py")],
      "The memory of L-BFGS is not part of the logs: with the real optimizer "
      "the iterates after a resume may differ. A penalty cycle that was "
      "interrupted is run with its full number of iterations again, as the "
      "code documents."),
    P("P23", "Optplan expressions mean what they say and survive JSON",
      "An expression built from optplan functions, parameters, constants and "
      "plain numbers with +, -, *, /, ** and abs, numbers on either side, "
      "creates a function whose value is that expression; building on a node "
      "never changes it. dumps followed by loads gives a plan in which every "
      "field of every registered node and transformation has the same value, "
      "shared nodes stay shared, each node appears once and all expressions "
      "evaluate to the same numbers; dumps does not change the plan. Plans "
      "with two different nodes of one name, references of the wrong kind "
      "or versions before 0.2.3 are refused, later versions are read. A "
      "workspace creates one object per node.",
      ["inputs", "programs"],
      "expressions of 2 operators (thorough: 3), each operand a function, "
      "parameter, constant, number or an earlier operand again; every "
      "registered node type with all fields set; all numbers symbolic",
      "tests check the node types some expressions produce and the JSON of a "
      "few plans, not the values for all numbers and combinations",
      ["spins/invdes/problem_graph/optplan/optplan.py",
       "spins/invdes/problem_graph/optplan/io.py",
       "spins/invdes/problem_graph/optplan/schema_function.py",
       "spins/invdes/problem_graph/creator_function.py",
       "spins/invdes/problem_graph/schema_utils.py",
       "spins/invdes/problem_graph/workspace.py"],
      [("Function operators, ReferenceType",
        "spins/invdes/problem_graph/optplan/optplan.py"),
       ("dumps, loads, validate, _iter_optplan_fields, generate_name",
        "spins/invdes/problem_graph/optplan/io.py"),
       ("Sum, Product, Constant, Power, PowerComp",
        "spins/invdes/problem_graph/optplan/schema_function.py"),
       ("create_sum, create_product, create_power, create_constant",
        "spins/invdes/problem_graph/creator_function.py"),
       ("Workspace.get_object, _add_node",
        "spins/invdes/problem_graph/workspace.py")],
      "Non-integer exponents of negative or complex values and divisions by "
      "zero are outside the claim."),
    P("P24", "Simulation spaces draw the layout; S interpolates bg to fg",
      "A SimulationSpace made from GDS layers or a list of meshes has the "
      "uniform grid of its region and spacing and, for any refractive "
      "indices, a background permittivity that in every field component of "
      "every cell is the volume average of the layers, slabs and polygons "
      "drawn in their order. Its selection matrix S, for any structure "
      "vector s, adds (foreground - background) times the mean of s over the "
      "parts of that cell which lie in the design area: quarter cells "
      "(direct lattice), whole cells (uniform) or every value on its own "
      "(full direct); s = 0 is the background, s = 1 the foreground, nothing "
      "outside the design area changes, and design_dims are the smallest "
      "rectangle that holds the design. Each wavelength has its own "
      "permittivities, in any order of requests. create_region_slices "
      "selects the cells of a region: all that lie inside of it, none that "
      "it does not touch, at least one.",
      ["inputs", "histories"],
      "grids of up to 4x3x2 cells (thorough 5x4x3); two layout layers with "
      "up to 2 rectangles each at fixed nanometre positions on and off the "
      "lattice, one slab; all refractive indices, the limits of a layer "
      "along z, structure vectors, permittivities handed to "
      "create_selection_matrix and regions symbolic",
      "tests look at a handful of cells of one layout with silicon and glass "
      "and an all-ones structure",
      ["spins/invdes/problem_graph/simspace.py",
       "spins/gridlock/selection_matrix.py",
       "spins/invdes/problem_graph/grid_utils.py",
       "spins/gds/parse_gds.py"],
      [("SimulationSpace, _create_grid, _draw_mesh_on_grid, "
        "_draw_gds_on_grid, _get_mat_index, get_fg_and_bg",
        "spins/invdes/problem_graph/simspace.py"),
       ("create_selection_matrix, direct_lattice, calculate_design_bounds, "
        "direct_lattice_deprecated", "spins/gridlock/selection_matrix.py"),
       ("create_region_slices", "spins/invdes/problem_graph/grid_utils.py"),
       ("GDSImport.get_polygons", "spins/gds/parse_gds.py")],
      "Differences below 1/1000 of the largest one, non-uniform meshes "
      "(refused by the code), tabulated named materials and the shape of the "
      "interpolation between table entries are outside the claim."),
]
