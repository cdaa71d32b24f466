"""What each property's check runs."""
REG = {}
REG["T01"] = dict(
    technique="runtime monitoring: differential oracle against a brute-force cell-list model after every step of random histories, under ASan+UBSan",
    rule="a case is a random refine/unrefine history of a 1-3D tree with random size and origin; every intermediate tree is one evaluation; distinct = distinct (dimension, cell set) with more than one cell",
    require=["int-query-hit", "int-query-miss", "phys-query-interior", "neighbors-finer", "neighbors-coarser", "flood-from-leaf"],
    runs=[dict(driver="tree.cpp", variant="asan", srcs="tree", quick=240, thorough=8000)])
_mesh = lambda mode, quick, thorough, **k: dict(driver="mesh.cpp", variant="asan", srcs="mesh", args=["--mode", mode], quick=quick, thorough=thorough, **k)
REG["M01"] = dict(
    technique="runtime monitoring: connectivity/tiling invariant monitor after every step of random adaptation histories (exact occupancy model of tree cells, request/response model of refine and coarsen flags), under ASan+UBSan",
    rule="a case is a random history of surface insertion, refinement, coarsening, locking and relaxation in 1-3D, or a random manually connected block; every intermediate mesh is one evaluation; distinct = distinct element sets with more than one element",
    require=["hanging-connections", "surface-faces", "cells-refined", "cells-coarsened", "cells-refined-for-smoothness", "block-permuted-connections"],
    runs=[_mesh("topo", 96, 2500), _mesh("manual", 300, 5000)])
REG["M02"] = dict(
    technique="runtime monitoring: vertex-position monitor (shared identity, hanging midpoints, Cartesian nominal positions, exact distance to surfaces and planes) along random adaptation/smoothing histories, under ASan+UBSan",
    rule="as M01; every mesh state after a relaxation or update is one evaluation",
    require=["hanging-edge-midpoints", "hanging-face-centers", "surface-vertices", "relaxations", "block-hanging"],
    runs=[_mesh("vert", 80, 2500), _mesh("manual", 500, 5000)])
REG["M04"] = dict(
    technique="runtime monitoring: identity/data tags on every element across random adaptations, and pointwise comparison of geometry and solution before/after layer splitting, under ASan+UBSan",
    rule="a case is a random adaptation or layer-splitting history with random data in every cell; every step is one evaluation; distinct = distinct element sets",
    require=["elements-kept", "layers-compared", "hanging-connections"],
    runs=[_mesh("data", 64, 2000), _mesh("layers", 56, 1500)])
def _flow(mode, qa, qp, ta, tp, driver="flow.cpp"):
    return [dict(driver=driver, variant="asan", srcs="all", args=["--mode", mode], quick=qa, thorough=ta),
            dict(driver=driver, variant="plain", srcs="all", args=["--mode", mode], quick=qp, thorough=tp)]
_scene = "a case is a solver on a random mesh (random boundary-fitted, curved, block, tree or periodic mesh in 1-3D with hanging nodes, random basis, flow state, boundary conditions and transport model); every mesh checked is one evaluation; distinct = distinct (mesh, basis, boundary conditions)"
REG["M03"] = dict(
    technique="runtime monitoring: metric terms of every element compared with the differentiated position of its own points, and both sides of every connection compared pointwise, on random meshes, under ASan+UBSan and in release mode",
    rule=_scene,
    require=["warped-meshes", "straight-meshes", "checked:watertight-hanging-2d", "checked:watertight-conformal-3d-warped", "checked:own-normal-warped-3d", "checked:closed-element-surf-warped-3d", "checked:volume"],
    runs=_flow("metric", 170, 500, 4000, 12000))
REG["S01"] = dict(
    technique="runtime monitoring: global conservation ledger (sum of cell residuals against recorded boundary fluxes; totals of closed domains over updates) on random meshes and flows, under ASan+UBSan and in release mode",
    rule=_scene,
    require=["viscous", "inviscid", "scene-block", "scene-surf", "scene-tree", "scene-periodic", "updates-closed", "boundary-faces"],
    runs=_flow("cons", 200, 1000, 6000, 20000))
REG["S02"] = dict(
    technique="runtime monitoring: residual and state of an exactly uniform flow observed at every point of random meshes, under ASan+UBSan and in release mode",
    rule=_scene,
    require=["exact", "checked:residual-3d-warped", "checked:residual-2d-warped-visc", "checked:residual-1d", "checked:state-2d"],
    runs=_flow("free", 200, 1000, 6000, 20000))
_ibuild = dict(per_src_flags={"Interpreter.cpp": ["-fno-sanitize=signed-integer-overflow"]})  # the manual documents that HIL ints wrap like C++ ints
REG["I01"] = dict(
    technique="runtime monitoring: differential oracle, an independent AST evaluator of HIL, over random generated programs (macros, std-library loops and conditionals, exception handlers, sub-interpreters, structured expressions), under ASan+UBSan",
    rule="a case is a session of random programs; every program executed is one evaluation; distinct = distinct program texts",
    require=["programs", "sub-interpreters", "macros", "loops", "handlers", "errors", "exit"],
    runs=[dict(driver="interp.cpp", variant="asan", srcs="interp", args=["--mode", "sem"], quick=12000, thorough=400000, build=_ibuild)])
REG["I02"] = dict(
    technique="runtime monitoring: fuzzing of the real interpreter with mutated programs, token soup, raw bytes and deep nesting under ASan+UBSan, with a monitor on the exception types, on surviving variables and on the usability of the session",
    rule="a case is a session of hostile inputs; every input is one evaluation; distinct = distinct input texts",
    require=["accepted", "rejected", "deep", "checked:usable", "struct-accepted", "struct-rejected"],
    runs=[dict(driver="interp.cpp", variant="asan", srcs="interp", args=["--mode", "fuzz"], quick=4000, thorough=150000, build=_ibuild)])
_file = lambda mode, quick, thorough, **k: dict(driver="file.cpp", variant="asan", srcs="all", args=["--mode", mode], quick=quick, thorough=thorough, **k)
REG["M05"] = dict(
    technique="runtime monitoring: object-graph comparison of meshes before writing and after reading, bit comparison of states, and lockstep comparison of a restarted solver with the uninterrupted one, under ASan+UBSan",
    rule="a case is a random solver (tree or surface mesh, random adaptation history, random boundary conditions, any number of updates) saved and reread, then continued and adapted next to the original, or a rotated block without a tree written and reread twice; distinct = distinct scenes",
    require=["restarts-surf", "restarts-tree", "continued-updates", "adapted", "weird-values", "warped-elements", "hanging-compared", "blocks"],
    runs=[_file("restart", 128, 4000), _file("block", 500, 20000)])
REG["M06"] = dict(
    technique="runtime monitoring: the exported files are parsed and judged by an independent checker (closed cells, volumes, owners, patches, adjacency) on random 3D meshes, under ASan+UBSan",
    rule="a case is a random 3D mesh (rotated block, adapted tree, adapted and smoothed surface mesh) exported to a scratch directory; distinct = distinct meshes",
    require=["exports-block", "exports-surf", "exports-tree", "hanging-faces", "deformed-faces", "cartesian-faces", "checked:cell-volume"],
    runs=[_file("poly", 140, 4000)])
REG["B01"] = dict(
    technique="runtime monitoring: every basis operator (nodes, weights, differentiation, boundary values, hierarchical prolongation/restriction, orthonormal modes, filters, stable-step coefficients) judged against independently computed Legendre polynomials and exact moments, for every row size, under ASan+UBSan",
    rule="a case is one basis (Gauss-Legendre, Gauss-Lobatto or equidistant, every row size the project builds) with random polynomials, or a random physical basis; every random polynomial is one evaluation",
    require=["legendre", "lobatto", "equidistant", "checked:quadrature", "checked:differentiation", "checked:restrict-prolong", "checked:physical-exact"],
    runs=[dict(driver="basis.cpp", variant="asan", srcs="basis", quick=840, thorough=40000, build=dict(row=8))])
REG["B02"] = dict(
    technique="runtime monitoring: differential oracle (naive multi-index loops and dense linear algebra) for the tensor-product, permutation, row-access and root-finding helpers on random inputs, under ASan+UBSan and in release mode",
    rule="a case is one helper exercised with random sizes and data; every call compared is one evaluation",
    require=["permutations", "checked:hypercube-matvec", "checked:row-index", "checked:read-row", "checked:bisection", "checked:projection-nearest"],
    runs=[dict(driver="helper.cpp", variant="asan", srcs="all", quick=8000, thorough=400000),
          dict(driver="helper.cpp", variant="plain", srcs="all", quick=8000, thorough=400000)])
REG["V01"] = dict(
    technique="runtime monitoring: abstract model of the eaten/shared vertices (union-find of corners, positions, shared values, neighbours, observers) compared with the real pointers after every operation of random histories, under ASan+UBSan",
    rule="a case is a random history of creating, combining, copying, moving and deleting vertex pointers (or paired pointers); every state is one evaluation",
    require=["states", "pairs", "checked:shared-max", "checked:observer-null", "checked:neighbors"],
    runs=[dict(driver="vertex.cpp", variant="asan", srcs="tree", args=["--mode", "vertex"], quick=12000, thorough=400000),
          dict(driver="vertex.cpp", variant="asan", srcs="tree", args=["--mode", "mutual"], quick=12000, thorough=400000)])
_geom = lambda mode, quick, thorough: dict(driver="geom.cpp", variant="asan", srcs="geom", args=["--mode", mode], quick=quick, thorough=thorough)
REG["G01"] = dict(
    technique="runtime monitoring: differential oracle, exact brute-force distance over all facets (independent segment/triangle/sphere distance), on random surfaces and compounds with random query points, distance limits and guesses, under ASan+UBSan",
    rule="a case is a random surface (facet sets of 1 to several hundred facets, degenerate and clustered ones included, spheres, compounds) and a batch of queries; distinct = distinct surfaces and queries",
    require=["compound", "sphere", "few-facets", "many-facets", "within-limit", "checked:beyond-limit"],
    runs=[_geom("near", 3000, 60000)])
REG["G02"] = dict(
    technique="runtime monitoring: differential oracle, brute-force long-double line-facet and line-sphere crossings with a transversality margin, on random surfaces, scales and lines (through vertices and edges too), under ASan+UBSan",
    rule="a case is a random surface and a batch of lines; distinct = distinct surfaces and lines",
    require=["lines-crossing", "lines-crossing-several", "lines-missing", "perpendicular", "compound", "sphere"],
    runs=[_geom("cross", 4000, 60000)])
REG["G03"] = dict(
    technique="runtime monitoring: CAD shapes with closed-form geometry are written, read back, faceted and queried by the real code, and monitored against the closed form (distance, watertightness, units, placement), under ASan+UBSan",
    rule="a case is a random CAD shape (boxes, cylinders, spheres, cones, tori, assemblies, planar curves), a file format and tolerances; distinct = distinct shapes and formats",
    require=["step-files", "iges-files", "step-curves", "iges-curves", "stl-ascii", "stl-binary", "shape-located", "assemblies-moved", "curve-located", "bad-files", "checked:watertight", "checked:direct-crossings"],
    runs=[dict(driver="cad.cpp", variant="asan", srcs="cad", quick=240, thorough=4000)])
_small = lambda mode, quick, thorough: dict(driver="small.cpp", variant="asan", srcs="small", args=["--mode", mode], quick=quick, thorough=thorough)
REG["N01"] = dict(
    technique="runtime monitoring: GMRES and BiCGStab run on a watched equation (every vector access, product and right-hand side is monitored) and judged by the true residual against dense least squares over the same Krylov space, under ASan+UBSan",
    rule="a case is a random well-conditioned system (symmetric, diagonally dominant, few eigenvalues, already solved) with a random guess and iteration count; distinct = distinct systems and settings",
    require=["gmres", "bicgstab", "gmres-full", "bicgstab-full", "already-solved", "checked:dense-operation"],
    runs=[_small("krylov", 6000, 200000)])
REG["N02"] = dict(
    technique="runtime monitoring: online trace monitor; twin monitors make the recorded samples observable, and the reported bounds must be exactly those of the recorded samples in the window after every sample of a random history, under ASan+UBSan",
    rule="a case is a random window, buffer size and history of hundreds of samples; distinct = distinct histories",
    require=["samples", "recorded", "ignored", "buffer-full", "late-start", "bad-window"],
    runs=[_small("history", 4000, 100000)])
REG["N03"] = dict(
    technique="runtime monitoring: atmosphere queried at random and boundary altitudes and monitored for hydrostatic balance, continuity, ideal-gas consistency and published values; transport laws against their formulas; freestream conditions of generated scripts against the specification, under ASan+UBSan",
    rule="a case is one altitude, temperature offset and transport law, or one script specifying a freestream (or a faulty one); distinct = distinct altitudes and scripts",
    require=["inside", "outside", "layer-boundaries", "transport", "free-density", "free-pressure", "free-altitude", "free-by-mach", "free-by-speed", "free-by-velocity", "fault:thermodynamics overspecified", "fault:velocity overspecified"],
    runs=[_small("atmos", 20000, 400000), dict(driver="case.cpp", variant="asan", srcs="all", args=["--mode", "free"], quick=1500, thorough=30000)])
REG["N04"] = dict(
    technique="runtime monitoring: round trip of generated tables (exact comparison) and of single-fault malformed tables (must be rejected), and of formatted strings at their size limit, under ASan+UBSan",
    rule="a case is one generated file or format call; distinct = distinct shapes, faults and positions",
    require=["csv:rectangular", "csv:short row", "csv:long row", "csv:trailing junk", "csv:blank line", "csv:trailing comma", "csv:empty file", "format-ok", "format-threw"],
    runs=[_small("text", 12000, 300000)])
REG["N05"] = dict(
    technique="runtime monitoring: interval-ledger model of every stopwatch (inner and outer brackets of each measured interval) along random histories of starts, pauses, resets, sums, scopes left by exceptions and concurrent merges, under ASan+UBSan",
    rule="a case is a random history over several stopwatches and a timing tree; distinct = distinct histories",
    require=["intervals", "misuse", "operators", "sums", "resets", "exception-in-scope", "reports", "concurrent-merges", "work-inviscid", "work-viscous"],
    runs=[_small("watch", 4000, 60000), dict(driver="solver.cpp", variant="plain", srcs="all", args=["--mode", "work"], quick=300, thorough=6000)])
REG["S14"] = dict(
    technique="runtime monitoring: spacing ledger of random layer sequences, and the heights of every wall edge of real meshes split by them compared with the sequence from the wall outward, under ASan+UBSan",
    rule="a case is one layer sequence, or a body-fitted mesh whose wall layer is split by one; distinct = distinct sequences and meshes",
    require=["thin", "thick", "walls-fill-height", "layers-compared", "checked:sequence-height", "checked:sequence-stack"],
    runs=[_small("layers", 6000, 200000), _mesh("sequence", 150, 4000)])
def _sol(mode, qa, qp, ta, tp): return _flow(mode, qa, qp, ta, tp, "solver.cpp")
REG["S04"] = dict(
    technique="runtime monitoring: every update of random problems bracketed by a monitor that recomputes the stability limit of every point from its definition and keeps a ledger of time, steps and iterations; growth of perturbations watched over long runs; under ASan+UBSan and in release mode",
    rule=_scene,
    require=["capped-steps", "cfl-steps", "local-steps", "multi-steps", "rate-checked", "checked:step-global", "checked:step-global-diffusion", "checked:step-local", "checked:step-local-diffusion", "checked:growth-inviscid", "checked:growth-viscous", "checked:spacing", "art-visc"],
    runs=_sol("step", 80, 600, 4000, 20000) + _sol("stable", 32, 400, 1500, 8000))
REG["S05"] = dict(
    technique="runtime monitoring: oversized steps and rough states provoke inadmissible states; an independent scan of all interior, face and hanging-face points after each update and a twin solver without repair decide; under ASan+UBSan and in release mode",
    rule=_scene,
    require=["repairs", "long-repairs", "short-repairs", "untouched-steps", "checked:left-inadmissible", "checked:repair-changed-viscosity"],
    runs=_sol("admis", 64, 450, 1500, 12000))
REG["S06"] = dict(
    technique="runtime monitoring: artificial viscosity of random smooth, rough, discontinuous and uniform flows scanned at every point, with a twin solver that never had any for turning it off; under ASan+UBSan and in release mode",
    rule=_scene + "; and viscosity model",
    require=["active-constant", "active-smoothness", "active-elementwise", "active-elementwise-pde", "active-admissibility", "uniform", "discontinuous", "off-viscous", "off-inviscid", "checked:corner-interpolation"],
    runs=_sol("av", 120, 800, 3000, 20000))
REG["S07"] = dict(
    technique="runtime monitoring: two identical solvers, one of them interrupted by random sequences of diagnostics between updates, compared bit for bit after every diagnostic and every later update; under ASan+UBSan and in release mode",
    rule=_scene + "; and diagnostics sequence",
    require=["runs"] + ["diag:" + d for d in ["bounds_field", "compute_residual", "export_polymesh", "integral_field", "integral_surface", "set_uncert_surface_rep", "set_uncertainty", "visualize_field", "visualize_surface", "vis_cart_surf", "vis_lts_constraints", "write_state", "is_admissible", "mesh write", "sample"]],
    runs=_sol("pure", 120, 600, 3000, 15000))
REG["S08"] = dict(
    technique="runtime monitoring: every ghost state and flux of every boundary condition observed on exactly sized faces and judged by independent definitions (characteristic waves, mirror, prescribed values), and heat and mass ledgers of walled domains; under ASan+UBSan and in release mode",
    rule="a case is a boundary condition with random parameters on a random face (dimension, orientation, size, sub- and supersonic interior states), or a random walled domain with random wall heat fluxes; distinct = distinct faces and scenes",
    require=["bc:" + b for b in ["cache", "characteristic", "copy", "freestream", "function", "no_slip energy", "no_slip equilibrium", "no_slip heat flux", "nonpenetration", "outflow", "pressure_outflow"]] + ["char-supersonic-inflow", "char-supersonic-outflow", "pressure-free", "pressure-imposed", "orientations", "transparent", "heated-walls", "adiabatic", "checked:wall-heat"],
    runs=_flow("unit", 6000, 40000, 200000, 1500000, "bc.cpp") + _flow("walls", 100, 600, 2500, 20000, "bc.cpp"))
REG["F01"] = dict(
    technique="runtime monitoring: every field function evaluated at random points, states and times and at the points, faces and cells of random meshes with real solutions, and compared with its independently written definition (and integrals and bounds with independent sums and interpolation); under ASan+UBSan and in release mode",
    rule="a case is a random state, position, time and parameter set, a point of Ringleb flow, or a solver on a random mesh whose every cell and boundary face is evaluated; distinct = distinct inputs and scenes",
    require=["doublet-axial", "doublet-planar", "ringleb-found", "reference-satisfies-continuity", "meshes-block", "meshes-surf", "meshes-tree", "skewness-deformed", "boundary-faces", "checked:random-mean", "checked:surface-integral", "checked:boundary-expression", "checked:qpoint-expression", "checked:element-nonsmoothness", "checked:field-bounds"],
    runs=_flow("point", 3000, 20000, 60000, 400000, "func.cpp") + [dict(driver="func.cpp", variant="plain", srcs="all", args=["--mode", "ringleb"], quick=3000, thorough=60000)] + _flow("mesh", 60, 800, 2000, 20000, "func.cpp"))
REG["S03"] = dict(
    technique="runtime monitoring: metamorphic lockstep monitor; the same random problem is solved in two descriptions (permuted/reflected axes, rotated space, reoriented cells, deformed instead of regular cells, other units) and meshes, residuals, time steps, artificial viscosity and states are compared point by point, under ASan+UBSan and in release mode",
    rule="a case is a pair of solvers for one random problem described in two ways; every pair compared is one evaluation; distinct = distinct problems",
    require=["kind-reoriented", "kind-rotated", "kind-units", "kind-tree", "kind-surf", "kind-deformed", "kind-hanging", "surf-same", "viscous", "active-smoothness", "active-elwise"],
    runs=[r for mode, a, p in (("block", 120, 800), ("axes", 60, 400), ("kind", 120, 800)) for r in _flow(mode, a, p, a*30, p*20, "sym.cpp")])
REG["S09"] = dict(
    technique="runtime monitoring: the right-hand side observed at the points of real solvers is judged against the exact flux divergence of analytically known flows (exact for flows in the approximation space, converging at the design order on self-similar grid pairs for smooth ones), as is the evolution of density waves, under ASan+UBSan and in release mode",
    rule="a case is one analytic flow on a random grid of parallelepipeds, a pair of self-similar curved or adapted grids, or a density wave followed in time; every flow compared is one evaluation; distinct = distinct (flow, grid)",
    require=["hanging-faces", "stretched-faces", "density-gradients", "velocity-gradients", "pressure-gradients", "converging-block", "converging-block-visc", "converging-tree", "converging-tree-visc", "hanging-block", "hanging-tree", "polynomials-moved", "waves-deformed", "waves-periodic"],
    runs=[dict(driver="order.cpp", variant="plain", srcs="all", args=["--mode", "exact"], quick=2000, thorough=60000),
          dict(driver="order.cpp", variant="asan", srcs="all", args=["--mode", "exact"], quick=250, thorough=8000),
          dict(driver="order.cpp", variant="plain", srcs="all", args=["--mode", "weak"], quick=160, thorough=5000),
          dict(driver="order.cpp", variant="plain", srcs="all", args=["--mode", "evolve"], quick=600, thorough=15000)])
REG["I03"] = dict(
    technique="runtime monitoring: differential lockstep oracle; each random case is run once by a generated HIL script and once by direct library calls, and files, solutions, reported quantities, forces, residuals, reports and restarts are compared; faulty scripts must be rejected; under ASan+UBSan and in release mode",
    rule="a case is a random script (dimension, geometry, refinement, layers, boundary and initial conditions, transport models, time stepping, artificial viscosity) and its library twin; distinct = distinct scripts",
    only=r"(?!terminate:std::runtime_error:state is not finite)", # an exception in a parallel loop cannot propagate; see DESIGN.md
    require=["1d", "2d", "3d", "geometry", "layers", "two-bodies", "forces", "restarts", "init-vortex", "av-elementwise", "av-smoothness", "av-constant", "viscous", "free-state", "bc:no_slip", "bc:pressure_outflow", "checked:report-string", "fault:boundary condition", "fault:component missing", "fault:transport model"],
    runs=[dict(driver="case.cpp", variant="asan", srcs="all", args=["--mode", "run"], quick=120, thorough=4000),
          dict(driver="case.cpp", variant="plain", srcs="all", args=["--mode", "run"], quick=300, thorough=8000),
          dict(driver="case.cpp", variant="asan", srcs="all", args=["--mode", "free"], quick=600, thorough=10000)])

REG["S10"] = dict(
    technique="runtime monitoring: differential oracle over thread counts and schedules; random cases (meshing, adaptation, geometry, layers, time stepping, artificial viscosity, repair) are repeated with 2 to 8 threads on an oversubscribed machine and meshes, refinement decisions, solutions and residuals compared with the serial run",
    rule="a case is a random simulation set-up run serially and with two other thread counts; distinct = distinct set-ups",
    only=r"(threads-|hang|asan|ubsan|assertion|signal)",
    require=["compared-1d", "compared-2d", "compared-3d", "geometry", "refined", "av-elementwise", "av-smoothness", "viscous", "local-time", "repair", "threads-2", "threads-3", "threads-4", "threads-8"],
    runs=[dict(driver="case.cpp", variant="plain", srcs="all", args=["--mode", "threads"], quick=400, thorough=20000),
          dict(driver="case.cpp", variant="asan", srcs="all", args=["--mode", "threads"], quick=32, thorough=1500)])
REG["S12"] = dict(
    technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions over random whole workflows (scripts with visualisation, library calls with every diagnostic, restarts, exports), and valgrind memcheck for uninitialised values",
    rule="a case is a random workflow; distinct = distinct set-ups; only sanitizer, assertion, memcheck and signal events count",
    only=r"(asan|ubsan|assert|valgrind|signal|glibcxx)",
    require=["visualised", "layers", "restarts", "forces", "runs"],
    runs=[dict(driver="case.cpp", variant="asan", srcs="all", args=["--mode", "vis"], quick=120, thorough=3000),
          dict(driver="solver.cpp", variant="asan", srcs="all", args=["--mode", "pure"], quick=60, thorough=1500),
          dict(driver="solver.cpp", variant="asan", srcs="all", args=["--mode", "admis"], quick=60, thorough=1500),
          dict(driver="solver.cpp", variant="asan", srcs="all", args=["--mode", "av"], quick=60, thorough=1500),
          dict(driver="file.cpp", variant="asan", srcs="all", args=["--mode", "restart"], quick=60, thorough=1500),
          dict(driver="file.cpp", variant="asan", srcs="all", args=["--mode", "poly"], quick=60, thorough=1500),
          dict(driver="case.cpp", variant="plain", srcs="all", args=["--mode", "vis"], quick=4, thorough=200,
               wrap=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=20"], timeout=600)])

REG["S13"] = dict(
    technique="runtime monitoring: sampled values, edges, faces and contours of cells with real solutions, and the XDMF/HDF5 files parsed back by an independent reader, judged point by point against independently evaluated Lagrange polynomials (values, positions, connectivity of every sub-cell, names, time), under ASan+UBSan and in release mode",
    rule="a case is a random mesh and flow with random sampling resolutions and output kinds; distinct = distinct problems",
    require=["2d", "3d", "file:field", "file:field-edges", "file:surface", "file:surface-edges", "contours", "cells-judged", "scene:surf", "scene:tree", "scene:block", "checked:sample"],
    runs=[dict(driver="vis.cpp", variant="asan", srcs="all", quick=120, thorough=4000),
          dict(driver="vis.cpp", variant="plain", srcs="all", quick=1500, thorough=60000)])

NOT_APPLICABLE = {"S11": "the OpenMP runtime here (libgomp) is not instrumented and clang has no omp.h/libomp, so ThreadSanitizer "
                         "reports every barrier as a race and cannot tell a real one; S10 watches the observable consequences of races instead"}
