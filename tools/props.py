#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and of MANIFEST.json (run: python3 tools/props.py)."""
import json, pathlib, sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE/"checks"))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], state=list(state), observe_at=list(observe), hook_needed=None)))

prop("M01", "The mesh stays a valid, gap-free tiling through any adaptation history",
     "After any sequence of tree initialisation, surface insertion, refinement, coarsening, wall-layer extrusion and layer splitting, every face of every cell takes part in exactly one connection (to one same-size neighbour, to half-size neighbours, or to one boundary condition), and connected faces are geometrically the same face. Face-adjacent cells never differ by more than one refinement level, and the element containers list exactly the cells that are connected, with nothing deleted still reachable.",
     ["histories", "inputs"], "every sequence of mesh-modifying calls with every refine/coarsen selection, 1D to 3D, with and without embedded geometry",
     "unit tests inspect a few hand-built meshes; the guarantee is about the state left behind by every order and combination of refine, coarsen, delete and extrude passes",
     ["src/Accessible_mesh.cpp", "include/Accessible_mesh.hpp", "src/Tree.cpp", "src/connection.cpp", "src/Hanging_vertex_matcher.cpp"],
     [("adaptation", "Accessible_mesh::update"), ("extrusion", "Accessible_mesh::extrude"), ("connection bookkeeping", "Accessible_mesh::connect_new / purge")],
     observe=["Accessible_mesh::valid", "Accessible_mesh element and connection sequences"])
prop("M02", "Neighbouring cells always meet: shared and hanging vertices coincide",
     "At every point of a mesh's life where it is used (after construction, adaptation, smoothing and snapping), the corner points of connected faces coincide in physical space, corner points hanging on the edge or face of a larger neighbour lie on the straight/bilinear interpolation of that neighbour's corners, and corners belonging to a boundary with a known position or shape stay on it. Smoothing moves only corners that are free to move.",
     ["histories", "inputs"], "every mesh and every interleaving of smoothing, snapping, refinement and coarsening",
     "tests check a handful of vertices in fixed meshes; gaps arise from particular combinations of hanging levels, extrusion and smoothing order",
     ["src/Vertex.cpp", "src/Hanging_vertex_matcher.cpp", "src/Accessible_mesh.cpp", "src/Element.cpp", "src/Boundary_condition.cpp"],
     [("hanging vertices", "Hanging_vertex_matcher::match"), ("smoothing", "Accessible_mesh::relax / Vertex::calc_relax"), ("boundary snapping", "Mesh_bc::snap_vertices")])
prop("M03", "Cell metrics are consistent: cells tile the domain exactly",
     "For every valid mesh, all cell Jacobians are those of the cell's own geometric map, the face normals seen from the two sides of a connection describe the same oriented area, each cell's outward face areas sum to zero, and for cells with straight edges the cell volumes sum to the volume enclosed by the domain boundary. Adjacent cells, including curved wall cells and hanging-node faces, share exactly the same face points, so there are no gaps or overlaps.",
     ["inputs", "histories"], "every mesh (Cartesian, deformed, hanging-node, surface-fitted, permuted face orientations), 1D to 3D, every polynomial degree",
     "tests compare few Jacobians with hand values; the identities must hold for every deformation, orientation and refinement pattern because all conservation rests on them",
     ["src/Deformed_element.cpp", "src/Element.cpp", "src/Solver.cpp", "include/connection.hpp", "src/connection.cpp"],
     [("metric computation", "Solver::calc_jacobian"), ("element metric", "Deformed_element::set_jacobian"), ("integrals", "Solver::integral_field / integral_surface")])
prop("M04", "Mesh changes carry data exactly: untouched cells and split layers",
     "Adapting the mesh leaves every cell that is not adapted alone: it keeps its identity, solution, uncertainty and face warping. Splitting wall-adjacent cells into layers represents exactly the same geometry (curved walls and warped faces included) and exactly the same solution polynomial on the two thinner cells, at any split ratio and however often it is repeated, and changes no other cell.",
     ["histories", "inputs"], "every adaptation and layer-splitting history, every solution field, 1D to 3D",
     "tests check one split of a simple mesh; the guarantee is over all histories with arbitrary fields, warped faces, hanging faces and split ratios",
     ["src/Accessible_mesh.cpp", "include/Mesh.hpp", "src/Deformed_element.cpp"],
     [("layer splitting", "Accessible_mesh::extrude with offset"), ("layer sequence", "Mesh::extrude(Layer_sequence)"), ("adaptation", "Accessible_mesh::update")],
     observe=["Element::state", "Element::position"])
prop("M05", "Writing and reading a mesh or solution file loses nothing",
     "Reading back a mesh file reproduces the same cells, connections, boundary conditions, corner positions and cell metrics, for any mesh the program can build; reading back a solution file reproduces the solution of every cell exactly; and continuing from the files evolves the flow, and refines and coarsens the mesh, the same as never having stopped.",
     ["histories", "crash_points"], "every mesh and solution, saved at any point of the run",
     "tests round-trip one small mesh; restart correctness depends on every kind of connection and auxiliary state present at the time of saving",
     ["src/Accessible_mesh.cpp", "src/Solver.cpp", "src/Case.cpp"],
     [("mesh file", "Accessible_mesh::write / read_file"), ("state file", "Solver::write_state / read_state")])
prop("M06", "Exported OpenFOAM meshes are valid and equivalent",
     "The exported face-based mesh lists every interior face exactly once between two different cells with the lower-numbered cell as owner, every boundary face once in the patch of its boundary condition, and every cell is closed: the outward area vectors of its faces sum to zero. Cell count, points, and enclosed volume match the mesh that was exported.",
     ["inputs"], "every 3D mesh that can be exported, including hanging faces and geometry-fitted cells",
     "no unit test can enumerate the mixtures of hanging faces, patches and permuted faces whose owner, neighbour and orientation must be consistent",
     ["src/Accessible_mesh.cpp", "src/Case.cpp"], [("export", "Accessible_mesh::export_polymesh")])
prop("T01", "Tree queries agree with the set of cells",
     "After any refine/coarsen history, locating the leaf containing a point (integer or physical), finding neighbours in any face, edge or corner direction, counting, and flood filling give the same answer as an exhaustive search over the current leaves. Every cell inside the root contains any in-domain point, cells that still exist are never moved in memory, and flood fill never crosses marked cells.",
     ["histories", "inputs"], "every refine/coarsen history, root size and origin, query point and direction, 1D to 3D",
     "tests query one small fixed tree with a zero or dyadic origin; wrong answers appear only for particular level differences, biases, roundings or starting cells",
     ["src/Tree.cpp", "include/Tree.hpp"], [("search", "Tree::find_leaf"), ("neighbours", "Tree::find_neighbor / find_neighbors"), ("flood fill", "Tree::flood_fill")])
prop("V01", "Shared mesh corners behave as one point",
     "Corners that have been merged behave as a single corner from then on, whatever the order of merges, copies, moves and deletions: every handle sees the same position, neighbour relations and flags, a value contributed by any of the sharing cells is visible to all of them under the requested reduction, and the corner lives exactly as long as some handle needs it. A two-way link between objects always stays symmetric and is broken on both sides when either end dies.",
     ["histories"], "every order of creating, merging, connecting, moving and destroying handles",
     "lifetime and aliasing errors depend on the order of merges and destructions, of which tests exercise one or two",
     ["src/Vertex.cpp", "include/Vertex.hpp", "include/Mutual_ptr.hpp"], [("merging", "Vertex::eat"), ("handles", "Vertex::Transferable_ptr"), ("paired pointers", "Mutual_ptr")])
prop("G01", "Nearest-point queries on surfaces return the true nearest point",
     "For every surface (triangle/segment sets, spheres, and combinations of surfaces), the returned nearest point lies on the surface and no other surface point is closer; a maximum search distance only ever suppresses points beyond it, and a distance guess changes speed but never the answer.",
     ["inputs"], "every surface, query point, maximum distance and distance guess",
     "acceleration structures fail only for particular geometry sizes, cluster shapes and query positions",
     ["src/Simplex_geom.cpp", "include/Simplex_geom.hpp", "src/Surface_geom.cpp", "include/Surface_geom.hpp"],
     [("tree search", "Simplex_geom::nearest_point"), ("composition", "Compound_geom::nearest_point")])
prop("G02", "Line-surface intersection finds every crossing and nothing else",
     "Intersecting a line with a surface returns, as line parameters, every transversal crossing of the line with the surface and only points that lie on both, whatever the size of the geometry, the number of facets, or the length of the two-point segment that defines the line.",
     ["inputs"], "every surface and line",
     "the culling of facets depends on scale and clustering, which the small fixed examples in the tests do not vary",
     ["src/Simplex_geom.cpp", "include/Simplex_geom.hpp", "src/Surface_geom.cpp"], [("culling", "Simplex_geom::intersections"), ("sphere", "Hypersphere::intersections")])
prop("G03", "CAD geometry is represented faithfully",
     "Loading CAD files and turning them into facets yields a surface within the requested tolerances of the exact geometry, watertight where the original is closed, with nearest points and intersections that agree with the exact shape to those tolerances in the program's length unit.",
     ["inputs"], "every supported file, tessellation parameter and query",
     "tests check individual points of one ellipsoid; watertightness and deviation are global properties of the whole surface",
     ["src/Occt.cpp", "include/Occt.hpp"], [("tessellation", "occt::triangles / occt::segments"), ("reading", "occt::read")])
prop("B01", "Polynomial bases integrate, differentiate and interpolate exactly",
     "For every supported polynomial degree, quadrature, differentiation, interpolation, boundary extrapolation, and half-cell prolongation/restriction are exact on every polynomial in their range, prolongation followed by restriction is the identity, restriction conserves integrals, and modal filtering leaves the mean untouched.",
     ["inputs", "configurations"], "every basis kind and degree, every polynomial within the documented degree",
     "tests sample one or two degrees and fields; a single wrong coefficient at one degree breaks conservation only there",
     ["src/Basis.cpp", "script/Basis.py", "script/auto_generate.py", "include/Basis.hpp", "src/Equidistant.cpp"], [("generated coefficients", "script/auto_generate.py"), ("basis class", "Basis")])
prop("B02", "Tensor-product and small-matrix helpers equal their definitions",
     "For every dimension and size, the tensor-product operators, outer products, strided row access, face-orientation permutations, root finding, projections and interpolation helpers produce what their mathematical definition says, and each face-orientation permutation composed with its inverse is the identity.",
     ["inputs"], "every dimension, size, orientation pair and input array",
     "the tests evaluate a few fixed arrays; index arithmetic can be wrong for untested dimension/size/orientation combinations only",
     ["include/math.hpp", "src/math.cpp", "include/Row_rw.hpp", "include/Face_permutation.hpp"], [("matvec", "math::hypercube_matvec"), ("face permutation", "Face_permutation")])
prop("S01", "Mass, momentum and energy are conserved discretely",
     "On any mesh, one or many time steps change the domain totals of mass, momentum and energy only through the numerical flux at the domain boundary: with only internal or periodic connections the totals stay constant to rounding, with any boundary conditions the change of each total over a step matches the boundary fluxes, and impermeable walls pass no mass or, when adiabatic, no energy.",
     ["inputs", "histories", "configurations"], "every admissible flow state, mesh (hanging nodes, mixed Cartesian/deformed, permuted faces), degree, equation set and step sequence",
     "tests check conservation on a couple of meshes with smooth states; it breaks for particular face orientations, hanging directions or viscous options only",
     ["include/Spatial.hpp", "include/pde.hpp", "src/Solver.cpp", "src/kernels_convective.cpp", "src/kernels_diffusive.cpp"],
     [("flux exchange", "Spatial::Neighbor"), ("hanging faces", "Spatial::Prolong_refined / Restrict_refined"), ("update", "Spatial::Local, Solver::update")])
prop("S02", "Uniform flow stays uniform",
     "A uniform admissible flow compatible with the boundary conditions remains unchanged by any number of time steps, for inviscid and viscous equations, on any valid mesh including deformed, hanging-node and geometry-fitted ones (to rounding, except for 3D cells with faces curved beyond what the basis can represent exactly, i.e. row size 4 or more).",
     ["inputs", "configurations", "histories"], "every mesh, degree, flow direction and speed, compatible boundary conditions",
     "requires the discrete metric identities at every kind of face at once; tests check one or two meshes",
     ["include/Spatial.hpp", "src/Deformed_element.cpp", "src/Solver.cpp", "src/Boundary_condition.cpp"], [("residual", "Spatial::Local"), ("boundary states", "Flow_bc implementations")])
prop("S03", "Results do not depend on how space is labelled",
     "Describing the same physical problem differently gives the same mesh, residuals, time steps, artificial viscosity and evolution: permuting or reflecting the coordinate axes of an adapted grid, around bodies or without; rotating all of space; reorienting individual cells; replacing regular cells with deformed cells of the same shape; shifting the domain; or changing the units of length, density and velocity.",
     ["inputs", "configurations"], "every state, mesh, axis permutation and reflection",
     "dimension-by-dimension code can be wrong in one direction or one face order only; tests rarely vary both",
     ["include/Spatial.hpp", "include/pde.hpp", "src/Solver.cpp", "src/connection.cpp"], [("directional sweeps", "Spatial::Local / Neighbor")])
prop("S04", "Time advances consistently and within the stability limit",
     "Simulated time advances by exactly the step of every step that needed no admissibility repair. A global step is the smaller of the maximum allowed step, which no step ever exceeds, and the safety factor times the smallest convective and diffusive stability limit over all points; with local time stepping each point's step is the safety factor times its own limit. The state changes by the step times the residual, perturbations of a uniform flow do not grow, steps are positive, and the iteration counter increases by one per update.",
     ["histories", "inputs"], "every state, mesh, safety factor and step sequence",
     "tests verify one step's size; the bookkeeping must survive all combinations of options and step sequences",
     ["src/Solver.cpp", "include/Spatial.hpp", "src/kernels_max_dt.cpp", "src/Iteration_status.cpp"], [("time step", "Solver::max_dt / update"), ("limits", "Spatial::Max_dt")])
prop("S05", "The admissibility repair restores physical states and touches nothing else",
     "If an update leaves non-positive density or energy at any quadrature point or on any face, hanging faces included, the enabled admissibility repair reports it and acts on it, and ends with density and energy finite and positive at all these points or reports failure; it leaves the artificial viscosity coefficients as they were, and admissible flows bit-for-bit untouched.",
     ["inputs", "histories"], "every inadmissible or admissible state on any mesh",
     "tests repair one constructed state; the guarantee is about arbitrary violations at interior, face and hanging-face points",
     ["src/Solver.cpp", "src/thermo.cpp", "include/pde.hpp"], [("check", "Solver::is_admissible"), ("repair", "Solver::fix_admissibility")])
prop("S06", "Artificial viscosity is bounded and only damps",
     "The artificial viscosity computed for any flow state is finite and non-negative everywhere, stays below the documented maximum, vanishes for a uniform flow, and, for the elementwise variants, is proportional to the requested width or speed and continuous between cells. Computing it changes neither the flow state (beyond rounding) nor the simulated time, and after turning it off the flow evolves as if it had never been on.",
     ["inputs", "histories"], "every admissible state, mesh and viscosity setting",
     "tests check a single smooth case; positivity and isolation from the flow state must hold for every state, including strong jumps",
     ["src/Solver.cpp", "src/stabilizing_art_visc.cpp", "include/pde.hpp"], [("smoothness based", "Solver::set_art_visc_smoothness"), ("row based", "Solver::set_art_visc_row / stabilizing_art_visc")])
prop("S07", "Looking at the solution does not change it",
     "Integrals, bounds, residual evaluation, sampling, time-step queries, status reports, error estimates and every kind of visualisation or data export leave the flow state and all later time steps bit-for-bit unaffected when each run is otherwise identical.",
     ["histories"], "every interleaving of diagnostic calls with time steps, adaptation and smoothing",
     "shared scratch storage makes side effects appear only in specific call orders that tests do not try",
     ["src/Solver.cpp", "src/Case.cpp", "src/Vis_data.cpp", "src/Element.cpp"], [("diagnostics", "Solver::integral_*, bounds_*, visualize*, set_uncertainty*"), ("scratch storage", "Element::face_storage / stage data")])
prop("S08", "Boundary conditions enforce what they are named for",
     "For any interior state and face orientation: non-penetration walls exchange only pressure and no mass or heat, no-slip walls hold zero velocity with the requested thermal condition, freestream and characteristic boundaries are transparent to their own state, pressure outflow imposes its pressure only where flow is subsonic, and extrapolating outflow passes the interior state; ghost states stay finite with positive density and energy for admissible interior states; none of this depends on the size of the face or on which side of its axis it lies. The mass and energy of a walled domain change only by the prescribed wall heat fluxes, and the reported wall heat flux and shear are those exchanged.",
     ["inputs", "configurations"], "every interior state, boundary parameter set, normal direction and dimension",
     "branches on flow regime and orientation are sampled by tests at one or two points only",
     ["src/Boundary_condition.cpp", "include/Boundary_condition.hpp", "include/pde.hpp"], [("flow conditions", "Flow_bc::apply_state / apply_flux"), ("wave decomposition", "Characteristics")])
prop("S09", "The discretisation is accurate to its design order",
     "Where the approximation space contains the flow and its fluxes (polynomial flows on grids of parallelepipeds, hanging nodes included), the right-hand side is the exact flux divergence, viscous, heat and artificial-viscosity terms included. For other smooth flows weighted integrals of it converge to the exact ones at about the design order under refinement of curved or adapted grids. Linear density profiles are carried exactly by a uniform flow and smooth density waves converge at the design order in space.",
     ["inputs", "configurations"], "every smooth field, degree, deformed or hanging-node mesh, and transport model",
     "tests check residuals for single analytic flows; errors in rarely used metric or viscous terms reduce the order without failing them",
     ["include/Spatial.hpp", "include/pde.hpp", "include/Transport_model.hpp"], [("right-hand side", "Spatial::Local, Spatial::Neighbor")])
prop("S10", "Results do not depend on the number of threads or their schedule",
     "Running the same case with any number of threads and any interleaving of the threads' work gives the same meshes and the same solution, up to the rounding of reassociated sums, and the same decisions about what to refine.",
     ["schedules", "configurations"], "every thread count and schedule of every parallel region",
     "tests run one thread count on one machine and cannot choose the interleaving",
     ["src/Solver.cpp", "src/Accessible_mesh.cpp", "include/Spatial.hpp", "include/Kernel_element.hpp"], [("parallel regions", "#pragma omp parallel for throughout")])
prop("S11", "Parallel regions are free of data races",
     "No two threads of any parallel region access the same memory location without synchronisation where at least one access is a write, during meshing, adaptation, smoothing, time stepping, repair, artificial viscosity, diagnostics and output.",
     ["schedules", "histories"], "every schedule of every parallel region reachable from the public interface",
     "races rarely change test results; they need a race detector on diverse workloads",
     ["src/Solver.cpp", "src/Accessible_mesh.cpp", "src/Vertex.cpp", "src/Lock.cpp", "include/Spatial.hpp"], [("parallel regions", "#pragma omp parallel for throughout"), ("locks", "Lock")])
prop("S12", "The whole workflow is free of memory errors and undefined behaviour",
     "No sequence of valid calls - meshing with and without geometry, adaptation, layer splitting, time stepping with every equation set, repair, diagnostics, visualisation, file output and input, teardown - reads or writes outside live objects, uses uninitialised or freed memory, or executes undefined behaviour.",
     ["histories", "inputs", "configurations"], "every valid sequence of public calls in 1D to 3D for every degree",
     "the regular build has no checks, so an out-of-range access passes the tests unless it happens to crash",
     ["src/", "include/"], [("whole library", "Solver, Accessible_mesh, Case")])
prop("S13", "Visualisation and sampling output is the solution",
     "Values written for visualisation or returned by sampling equal the polynomial solution at the written positions, on every cell, edge, face, surface and contour; output files reference every requested cell exactly once with consistent array sizes, and reading them back gives those values.",
     ["inputs"], "every mesh, field, resolution and output kind",
     "tests look at existence and a few values; index or orientation mistakes affect only some dimensions or faces",
     ["src/Vis_data.cpp", "src/Xdmf_wrapper.cpp", "src/Solver.cpp", "src/Output_data.cpp", "src/Qpoint_func.cpp"], [("interpolation", "Vis_data"), ("files", "Xdmf_wrapper, Solver::visualize_field_xdmf")])
prop("S14", "Layer sequences and wall layers keep their spacing contract",
     "Any requested wall-layer sequence starts at the requested wall spacing, fills the unit height exactly with strictly positive, smoothly growing layers, and splitting a mesh's wall layer accordingly preserves the boundary, the outer mesh and the total volume while stacking cells in order from the wall outward.",
     ["inputs", "histories"], "every wall spacing, layer count and target mesh",
     "tests check a couple of parameter pairs; limiting branches depend on the ratio of spacing to count",
     ["src/Layer_sequence.cpp", "src/Accessible_mesh.cpp"], [("sequence", "Layer_sequence"), ("splitting", "Accessible_mesh::disconnect_boundary / extrude / split layers")])
prop("I01", "HIL expressions and programs mean what the language says",
     "Every well-formed program evaluates to the value and variable state prescribed by the language: operator precedence and associativity, integer versus real typing, string escapes and nesting, macro substitution, scoping and assignment rules, control-flow macros and exception handling.",
     ["programs"], "every well-formed program",
     "the language is compositional; tests evaluate a few dozen expressions while precedence, typing and substitution interact in all combinations",
     ["src/Interpreter.cpp", "include/Interpreter.hpp", "include/Namespace.hpp", "src/Struct_expr.cpp", "include/builtin.hil"], [("evaluation", "Interpreter::exec / make_variable"), ("variables", "Namespace"), ("built-ins", "include/builtin.hil")])
prop("I02", "Malformed HIL input is rejected, never crashes",
     "Feeding any text to the interpreter or expression parser ends in normal completion or in the language's own exception, never in a crash, memory error, undefined behaviour or hang without a loop in the program, and the interpreter stays usable with its earlier variables intact afterwards.",
     ["inputs", "histories"], "every byte string, and every sequence of bad and good programs in one session",
     "tests try a few malformed inputs; parser crashes come from odd token combinations and numeric extremes",
     ["src/Interpreter.cpp", "src/Struct_expr.cpp", "include/Namespace.hpp"], [("parsing", "Interpreter::exec"), ("errors", "Hil_exception handling")])
prop("I03", "A HIL case does what the equivalent library calls do",
     "A simulation driven through the scripting interface produces the same mesh, solution, saved files and reported quantities (residuals, integrals, surface forces and their coefficients, periodic reports) as the equivalent sequence of direct library calls, variables reported to scripts match the solver's state, restarting from the saved files restores it, and faulty specifications (missing, contradictory or unknown values) end the case with an exception.",
     ["programs", "histories"], "every case script over the documented case variables",
     "tests run two scripts without comparing to an independent driver",
     ["src/Case.cpp", "include/Case.hil", "src/hexecute.cpp", "src/hil_properties.cpp"], [("bindings", "Case::Case")])
prop("N01", "The iterative linear solvers deliver what they promise",
     "For every well-conditioned system, initial guess and iteration budget, the iterative linear solvers end with a finite solution: GMRES with the smallest true residual reachable in its search space (never larger than at the start), and both methods with a negligible true residual when given at least as many iterations as unknowns. They use only the auxiliary vectors they ask for, leave the right-hand side alone, do no more operator products than their iteration count implies, and handle systems that are already solved.",
     ["inputs"], "every well-conditioned system size, restart length and right-hand side",
     "tests solve a couple of fixed systems; breakdown handling and restart bookkeeping depend on the system",
     ["src/iterative.cpp", "src/Linear_equation.cpp", "include/Linear_equation.hpp"], [("GMRES/BiCGSTAB", "iterative::gmres / bicgstab")])
prop("N02", "Convergence monitors bound the history they are given",
     "A history monitor's reported minimum and maximum bound, and are attained by, the samples of the trailing window it is specified to cover, for any sequence of iteration numbers and values, so that convergence is never declared while the monitored quantity still varies beyond the tolerance within the window.",
     ["histories"], "every sequence of samples, window fraction and buffer size",
     "tests feed one sinusoid; buffer decimation interacts with the sequence length and spacing",
     ["src/History_monitor.cpp", "include/History_monitor.hpp"], [("window", "History_monitor::add_sample")])
prop("N03", "Gas and atmosphere models are thermodynamically consistent",
     "The standard atmosphere is continuous, hydrostatic and obeys the ideal gas law over its whole range and rejects heights outside it; flow properties computed from any complete set of user inputs reproduce those inputs and obey the equation of state; and transport coefficients are positive and match their law.",
     ["inputs"], "every altitude, temperature offset, input combination and temperature",
     "tests compare few table rows; continuity and consistency are statements about whole ranges",
     ["src/standard_atmosphere.cpp", "src/thermo.cpp", "src/hil_properties.cpp", "include/Transport_model.hpp", "include/constants.hpp", "include/Case.hil"], [("atmosphere", "standard_atmosphere"), ("properties", "hil_properties, Case.hil")])
prop("N04", "Text tables and text formatting are read faithfully or rejected",
     "Any rectangular comma-separated numeric table is read to exactly the numbers written with the right shape; malformed or ragged input raises an error instead of returning unrelated numbers or reading out of bounds; and formatting helpers never truncate silently.",
     ["inputs"], "every file content and format argument",
     "tests read one well-formed file",
     ["src/read_csv.cpp", "src/global_hacks.cpp", "include/utils.hpp"], [("csv", "read_csv"), ("format", "format_str")])
prop("N05", "Timers and work counters account for all the work",
     "Nested and repeated timing never loses or double counts: a timer's total equals the sum of its disjoint measured intervals, a parent's time covers its children, work counters equal the work performed, merging preserves totals, and misuse (stopping what is not running) is rejected without corrupting totals.",
     ["histories", "schedules"], "every start/stop/reset/merge history",
     "tests run one start/stop pair",
     ["src/Stopwatch.cpp", "src/Stopwatch_tree.cpp"], [("timers", "Stopwatch, Stopwatch_tree")])
prop("F01", "Field functions evaluate their definition everywhere",
     "Every built-in solution, geometry, error and statistics function (pressure, Mach number, vortices, exact reference flows, powers, differences, averages, element statistics) equals its mathematical definition at every point and time, and the exact reference flows satisfy the governing equations.",
     ["inputs"], "every state, position, time and parameter",
     "tests sample a point each; formulas can be wrong in one dimension, component or parameter range",
     ["src/Spacetime_func.cpp", "src/Qpoint_func.cpp", "src/Domain_func.cpp", "src/Element_func.cpp", "src/Surface_func.cpp", "src/Boundary_func.cpp"], [("functions", "Spacetime_func, Qpoint_func, Surface_func, ...")])

def main():
    from registry import REG
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    (HERE/"properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
    from registry import NOT_APPLICABLE
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in REG:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                               technique=REG[i]["technique"], level="exploration", level_note=REG[i].get("note", "held on the executions explored (counts in the evidence file); nothing is claimed about executions not produced")))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
    man = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks were needed: the checks drive public interfaces and instrument at compile time", source_commits=[]),
               checks=checks, not_applicable=na, notes="See DESIGN.md. known_findings.json lists genuine defects, fixed and recorded.")
    (HERE/"MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(checks), "checks", len(na), "not applicable")
if __name__ == "__main__": main()
