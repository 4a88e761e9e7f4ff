"""Writes properties.jsonl (one-off authoring helper; the jsonl is the committed artefact)."""
import json, os
S = "moving_mesh_transport/solver_classes/"
F = "moving_mesh_transport/solver_functions/"
L = "moving_mesh_transport/loading_and_saving/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

T3 = "The three stable tests print errors of one closed-form source solution and of one spline and assert nothing; "

p("C01", "Slab cell matrices are the exact Legendre integrals",
  "In slab geometry, for every polynomial order, every cell of positive width and every pair of edge velocities, the advection matrix equals the integral over the cell of (derivative of basis function i) times (basis function j), and the drift matrix equals the integral of (time derivative of basis function i on the moving cell) times (basis function j), for the normalised Legendre basis of that cell. Rebuilding the matrices for another cell leaves nothing of the previous cell behind.",
  ["inputs", "histories"], "all orders M, all 0-width-excluded cells (xL<xR), all edge velocities, any sequence of cells on one matrix object",
  T3 + "no test builds a matrix for any cell.",
  [S + "matrices.py"], [("L_const / make_L_slab", S + "matrices.py:G_L.__init__, make_L_slab"), ("make_G_slab", S + "matrices.py:make_G_slab"), ("dispatch", S + "matrices.py:make_L, make_G, make_all_matrices")],
  ["the L and G matrices after a build for one cell"])

p("C02", "Spherical cell matrices are the exact Chebyshev integrals",
  "In spherical geometry, for every polynomial order up to 10, every cell 0 <= left < right and every pair of edge velocities, the mass, streaming, advection, drift and mass-rate matrices equal the exact r-squared (or r) weighted integrals over the cell of the products of the normalised Chebyshev basis functions, of their space or time derivatives, and the time derivative of the mass matrix; the first three are exact whenever the coefficient tables they are given encode the exact integrals. Rebuilding the matrices for another cell leaves nothing of the previous cell behind.",
  ["inputs", "histories"], "all i,j<=10, all 0<=rL<rR, all edge velocities, all consistent coefficient tables, any sequence of cells",
  T3 + "242 separate closed forms of drift and mass-rate entries are never evaluated; the built-in self test covers one cell at order 3 to five digits and is switched off.",
  [S + "matrices.py", S + "GMAT_sphere.py", S + "functions.py"],
  [("closed forms of the drift and mass-rate entries", S + "GMAT_sphere.py:GMatrix, MPRIME"), ("table driven matrices", S + "matrices.py:make_mass_sphere, make_J_sphere, make_L_sphere"), ("sqrt(2) factors of the zeroth function", S + "functions.py:sqrt_two_mass_func"), ("dispatch", S + "matrices.py:make_all_matrices, make_G_sphere, make_MPRIME")],
  ["Mass, J, L, G and mass-rate matrices after a build for one cell"])

p("C03", "Basis functions are the orthonormal polynomials of the cell",
  "On every cell a<b the slab basis functions are the Legendre polynomials and the spherical ones the Chebyshev polynomials (first kind, degree at most 12) of the coordinate mapped to [-1,1], scaled so that they are orthonormal on that cell (with the Chebyshev weight in the sphere), evaluated point by point; the edge values used by the numerical flux are those functions' values at the two cell edges; and the derivative of the Legendre basis (degree at most 11) is the derivative with respect to position.",
  ["inputs"], "all degrees in the stated range, all cells a<b, all arrays of points",
  T3 + "no test evaluates a basis function.",
  [S + "functions.py", S + "numerical_flux.py"],
  [("normPn, Pn and scalar versions", S + "functions.py"), ("eval_Tn, normTn, weight_func_Tn", S + "functions.py"), ("dx_normPn", S + "functions.py"), ("edge values", S + "numerical_flux.py:B_LR_func")])

p("C04", "Edge flux is upwinded, consistent across cells and honours boundaries",
  "At each cell edge the flux term uses the polynomial trace from the side that the relative velocity (direction cosine minus edge velocity) comes from, multiplied by that relative velocity, the edge weight (1 in slab, radius squared in the sphere) and the edge value of each basis function, right edge minus left edge, so that what one cell loses through an edge its neighbour gains. At the ends of the domain the incoming trace is the boundary source when one is switched on for that side and time, the mirrored-direction trace at the centre of a sphere, and zero otherwise, and the result depends only on the current arguments and not on earlier calls.",
  ["inputs", "configurations", "histories"], "all orders, cells, numbers of cells, directions, strictly increasing edges, edge velocities, coefficient arrays, boundary configurations and call histories",
  T3 + "no test computes a flux; a wrong trace only changes the answer for particular directions and cells.",
  [S + "numerical_flux.py"],
  [("trace reconstruction", S + "numerical_flux.py:make_sol, make_h, extend_mesh"), ("upwind choice and assembly", S + "numerical_flux.py:make_LU"), ("boundary source", S + "numerical_flux.py:is_boundary_source_on, BC_func, integrate_quad")])

p("C05", "Mesh edges stay ordered and their velocities are their derivatives",
  "For every supported configuration and every time from 0 to the final time, the mesh has one more edge than cells, its edges are strictly increasing, and the reported edge velocities are the time derivatives of the edge positions at that time (for the mesh that follows a tabulated wave front, their difference quotients over the time step 1e-7); edges and velocities depend only on the time asked for, not on which times were asked for before, and edge arrays handed out earlier (the opacity keeps one to see whether the mesh has moved) are not altered. A static mesh never moves, reports zero velocities, and, except for the boundary-driven and the static thick meshes, which are laid out directly, sits where the moving mesh would be at the final time.",
  ["inputs", "configurations", "histories"], "plane/point pulse, dipole, self-similar and manufactured problems, shell, square (uniform and Legendre-type spacing), boundary-driven, time-switched accelerating and wave-tracking configurations; all cell counts allowed by the configuration, all sizes, speeds and times in range; any sequence of queried times",
  T3 + "no test constructs a mesh.",
  [S + "mesh.py"],
  [("motion", S + "mesh.py:move, move_middle_edges, square_source_static_func_sqrt_t"), ("following a wave front", S + "mesh.py:thick_square_moving_func_2, thick_wave_loc_and_deriv_finder; mesh_functions.py:_interp1d"), ("initial placement", S + "mesh.py:initialize_mesh, simple_moving_init_func, shell_source, thin_square_init_func, thin_square_init_func_legendre, boundary_source_init_func")],
  ["edges and edge velocities after construction and after each move"])

p("C06", "The semi-discrete system is assembled exactly, block by block",
  "In spherical geometry, for every state vector and time, the derivative returned for each direction and cell is the inverse mass matrix applied to (minus edge flux, plus direction cosine times advection, minus streaming times the angular derivative, plus drift, plus half the scattering-weighted source, minus mass-rate term) plus the scattering term times the mean over directions minus the state itself. In slab geometry it is minus edge flux, plus direction cosine times advection, plus drift, minus the absorption term, plus the scattering term, plus half the source (for the manufactured problem the source of that direction). Every ingredient is that of the same direction, cell and time. The incoming state vector is not modified, the result has the same length and ordering, and the mesh is moved to the requested time first. The derivative depends only on the state and time of the call, not on earlier calls.",
  ["inputs", "configurations"], "slab and sphere, all numbers of directions, cells and orders, all states, times, symmetric direction sets, scattering strengths",
  T3 + "no test calls the right-hand side; index mix-ups between directions, cells and coefficients are invisible to it.",
  [S + "rhs_class_1.py"],
  [("assembly", S + "rhs_class_1.py:call"), ("step counter", S + "rhs_class_1.py:time_step_counter")])

p("C07", "Angular quadrature, scalar flux and angular derivative are consistent",
  "The problem's direction weights are normalised to sum to one, the scalar-flux coefficients of a cell are for every basis function the weighted sum over all directions (times the scattering cross section in slab), and with a space-dependent opacity they are the weighted sums contracted with the opacity expansion and the triple-product integrals, recomputed from scratch on every call. The angular derivative in spherical geometry is the conservative difference of (1-mu^2) psi between the midpoints around each direction with nothing crossing mu = -1 and +1, so that its width-weighted sum over all directions vanishes for every angular profile.",
  ["inputs", "histories"], "all numbers of directions, all increasing direction sets in [-1,1], all weights, orders and coefficient arrays, any call history",
  T3 + "no test sums a flux or takes an angular difference.",
  [S + "phi_class.py", S + "functions.py", S + "build_problem.py"],
  [("scalar flux", S + "phi_class.py:make_P, call_P_noncon, get_coeffs, load_AAA"), ("angular difference", S + "functions.py:finite_diff_uneven"), ("weight normalisation", S + "build_problem.py:build.__init__")])

p("C08", "Opacity expansion and absorption term follow the current mesh and state",
  "After every update, each cell's opacity coefficients are the quadrature of the opacity profile at the requested mesh and time against that cell's basis functions, whether the cell was recomputed or reused, and the triple-product table holds the integrals over [-1,1] of all products of three normalised Legendre functions, zero where parity or degree makes them vanish. The absorption term equals the total cross section times the state for a constant opacity and otherwise the triple-product contraction of the state with the cell's opacity coefficients, for every call regardless of earlier calls.",
  ["inputs", "configurations", "histories"], "all meshes, times, states, opacity profiles, expansion orders, and every sequence of updates and calls on one object",
  T3 + "nothing exercises the reuse of moments or the accumulation across calls.",
  [S + "opacity.py"],
  [("moments with reuse", S + "opacity.py:sigma_moments, integrate_moments, sigma_function"), ("triple products", S + "opacity.py:create_integral_matrices, integrate_quad, both_even_or_odd"), ("absorption", S + "opacity.py:make_vectors")],
  state=[("moments", "opacity coefficients per cell with the mesh they were computed on", S + "opacity.py:cs, edges")])

p("C09", "Uncollided flux of initial pulses is the exact streaming solution",
  "For every position and every positive time the uncollided scalar flux of a unit-strength initial plane, square or Gaussian pulse in slab geometry and of an initial uniform sphere is the exact attenuated free-streaming solution (up to the built-in 1e-12 regularisation of division by time; the cell-integrated plane pulse of a moving mesh is regularised by the half-width of the initial mesh instead): symmetric, never negative, zero outside the region a unit-speed signal can reach, with the pulse's total content times exp(-t). The selected solution is the one belonging to the problem's source type and geometry, is zero when the uncollided treatment is off, and scales linearly with the source strength. It depends only on the positions and time asked for, not on what was asked for before.",
  ["inputs", "configurations"], "all positions, times t>0, half-widths, Gaussian widths, source strengths, and source-type/geometry selections",
  T3 + "none touches the pulses; a wrong branch boundary shows only for particular position/time pairs.",
  [S + "uncollided_solutions.py"],
  [("pulses", S + "uncollided_solutions.py:plane_IC_uncollided_solution, plane_IC_uncollided_solution_integrated, square_IC_uncollided_solution, gaussian_IC_uncollided_solution, shell_IC_uncollided_solution"), ("selection", S + "uncollided_solutions.py:uncollided_solution")])

p("C10", "Uncollided flux of extended sources is the exact time integral of emission",
  "For every position, time, switch-off time and source size, the uncollided scalar flux of a square source that emits until the switch-off time equals the integral over emission times of the attenuated free-streaming kernel, both for isotropic emission and for the two-direction approximation, including all orderings of the arrival times of the source edges; likewise the two-direction Gaussian source in closed form, and the quadrature forms of the Gaussian source integrate exactly the stated kernel at the given nodes; and the flux entering at the left boundary of the moving-opacity problem is, for every direction, attenuated by the optical depth along the particle's path through the moving profile and present exactly while particles emitted up to the switch-off time are there. The flux depends only on the positions and time asked for, not on what was asked for before.",
  ["inputs"], "all x, t>0, t0>0, x0>0, sigma>0, node sets",
  "The two source tests evaluate one parameter pair each (t=t0=10 on x in [50,60]; t=31.6, t0=10) and assert nothing.",
  [S + "functions.py", S + "uncollided_solutions.py"],
  [("boundary flux through the moving opacity", S + "uncollided_solutions.py:fake_sedov, fake_sedov_integrand, integrate_quad_sedov_source"), ("square source", S + "functions.py:uncollided_square_s2, f1, f2, f3"), ("two-direction square source", S + "functions.py:uncollided_su_olson_s2, s2_F"), ("two-direction Gaussian", S + "functions.py:uncollided_s2_gaussian"), ("Gaussian source by quadrature", S + "uncollided_solutions.py:gaussian_source_uncollided_solution, gaussian_source_integrand, gaussian_s2, gaussian_s2_thick_integrand, integrate_quad_gaussian_source")])

p("C11", "Sources and initial conditions are projected onto every cell's basis",
  "For every cell, direction and basis function the stored initial coefficient is the quadrature projection of the configured initial profile onto that cell's basis function, and the stored source coefficient is the quadrature projection of the configured source (or of the uncollided flux when that treatment is on, r-squared weighted in the sphere) times the source strength, with external sources present only inside their region and until their switch-off time. Profiles and projections depend only on the problem description, the cell and the time, never on earlier calls.",
  ["inputs", "configurations", "histories"], "all cells, orders, quadrature sets, directions, profile types, sizes, strengths, times",
  T3 + "no test projects a source or initial condition.",
  [S + "sources.py", S + "build_problem.py", S + "mutables.py"],
  [("source projection", S + "sources.py:make_source, integrate_quad, integrate_quad_sphere, integrate_quad_not_isotropic"), ("source profiles", S + "sources.py:square_source, gaussian_source, MMS_source"), ("initial projection", S + "build_problem.py:make_IC, integrate_quad, integrate_quad_sphere, integrate_e"), ("initial profiles", S + "mutables.py:IC_func")])

p("C12", "Reported fluxes are the expansion in the cell that contains the point",
  "For every coefficient array, mesh and list of evaluation points, the reported angular flux at a point inside the mesh is the basis expansion of the cell containing that point and zero outside the mesh, the reported scalar flux is its weighted sum over directions plus, when that treatment is on, the uncollided flux at the same point and time, and the material energy density is the expansion of the material block. The reported exit distribution and exit fluxes are the same quantities evaluated at the two ends of the mesh. The order in which they are asked for makes no difference.",
  ["inputs", "configurations"], "all coefficient arrays, sorted meshes, evaluation points (inside, outside, exactly on edges), numbers of directions, orders, both geometries, uncollided on/off",
  T3 + "no test evaluates an output.",
  [S + "make_phi.py"],
  [("scalar and angular flux", S + "make_phi.py:make_phi, basis"), ("material energy", S + "make_phi.py:make_e"), ("exit distribution", S + "make_phi.py:get_exit_dist")])

p("C13", "Quadrature rules and evaluation nodes are complete and well formed",
  "For every order n >= 2 the Gauss-Lobatto rule includes both end points, has the weights 2/(n(n-1)) there and 2/(n(n-1) P_{n-1}(x)^2) at interior nodes placed at the roots of the derivative of P_{n-1}; the Chebyshev rule has nodes cos((2i-1)pi/2n) with equal weights pi/n; and the Gauss-Legendre rule is passed through unchanged. A rule does not depend on the rules asked for before, nor on what their receivers did with them. Evaluation nodes are produced for every cell, the same number in each, inside that cell and in increasing order throughout the mesh.",
  ["inputs"], "all n, all increasing meshes, both geometries, all orders",
  T3 + "no test checks a node or weight.",
  [S + "functions.py"],
  [("rules", S + "functions.py:quadrature, newtons, eval_legendre_deriv, eval_second_legendre_deriv"), ("evaluation nodes", S + "functions.py:find_nodes")])

p("C14", "Cubic spline interpolates with continuous derivatives and natural ends",
  "For every set of at least two strictly increasing knots and values, the linear system built for the spline states exactly that each piece matches the data at both of its knots, that first and second derivatives agree at interior knots, and that the second derivative vanishes at the two ends; the coefficients solve that system, and evaluation at a point uses the piece whose interval contains it. The linear solver returns the solution of any non-singular system without altering its inputs. Splines built and evaluated before make no difference.",
  ["inputs"], "all numbers of knots, all increasing knots, all values, all evaluation points; all non-singular systems",
  "The one spline test interpolates two data sets and only prints an error.",
  [S + "cubic_spline.py"],
  [("system", S + "cubic_spline.py:points, first_deriv, second_deriv"), ("solver", S + "cubic_spline.py:GaussElim, BackSub, swap_rows"), ("evaluation", S + "cubic_spline.py:eval_spline")])

p("C15", "Material emission closes exactly over the material energy",
  "For every material energy expansion and cell, the emission coefficients are the quadrature projections of the emission term onto the cell's basis functions, where for the linear (Su-Olson) heat capacity the emission at a point equals the material energy density there, sign included, and for a constant heat capacity it is the fourth power of the energy density over the scaled heat capacity; without coupling all coefficients are zero.",
  ["inputs", "configurations", "histories"], "all energy coefficients (either sign), cells, orders, quadrature sets, closure selections",
  T3 + "no test evaluates the closure.",
  [S + "radiative_transfer.py"],
  [("closure", S + "radiative_transfer.py:T_func, su_olson_source"), ("projection", S + "radiative_transfer.py:make_H, integrate_quad, make_e")])

p("C16", "Saved solutions are found again under the parameters they were saved with",
  "Whatever solution is saved for a run, loading with the same problem, source, final time, scattering ratio, size, cell count and treatment flags returns exactly the saved positions, fluxes, energies, directions, weights, edges and coefficients, and saving one run never changes what is loaded for a run with different parameters. Wave-front tables saved for a problem, source and final time are likewise the ones loaded for them, independent of every other table and of the solutions; where the loader provides for runs without a table (thick two-direction Su-Olson and thick constant heat capacity problems) it reports a front at the origin at the final time.",
  ["inputs", "histories"], "all run parameters and data arrays, any sequence of saves",
  T3 + "no test saves or loads.",
  [L + "save_output.py", L + "load_solution.py"],
  [("key and layout on save", L + "save_output.py:save_solution"), ("key and layout on load", L + "load_solution.py:call_sol"), ("wave-front tables", L + "save_output.py:save_wave_loc, " + L + "load_solution.py:call_wavepoints")])

p("C17", "Input decks reach the solver faithfully; contradictory decks are rejected",
  "Every entry of an input deck (parameters, source section, mesh section) reaches the part of the solver that uses it with the value given, for every run of the run lists: the problem description, the mesh, the five quadrature rules and the time integrator of a run are made from that run's cell count, order, angles and size and from the deck's other entries. A deck that switches on two or more mutually exclusive options of an option group is rejected, as are run lists of unequal lengths. Each method of the run class runs the problem it is named after with the uncollided and mesh-motion treatments asked for and hands out that solver's results. Loading reads the deck of the problem asked for and the mesh deck as they are at that time, and solvers loaded or run before make no difference.",
  ["configurations"], "all decks of the nine problem types with any numeric entries, option groups of any size with any on/off pattern, run lists of one to three entries",
  T3 + "no test loads a deck or calls main.",
  [L + "load_parameters.py", F + "main_functions.py", F + "run_functions.py", "moving_mesh_transport/solver.py"],
  [("option groups", L + "load_parameters.py:dictionary_loader"), ("loading", L + "load_parameters.py:parameter_load_class.__init__"), ("selection", F + "main_functions.py:parameter_function, x0_function, time_step_function"), ("passing on", "moving_mesh_transport/solver.py:main_class.main"), ("construction of a run", F + "main_functions.py:solve"), ("run methods", F + "run_functions.py:run")])

p("C18", "Reported results are the computed state at the reported time",
  "A run integrates, from time zero and its initial condition to the final time, the right-hand side assembled from that run's own parts. The fluxes, angular fluxes, material energy densities (zero without a material equation), exit distributions and positions reported for a time are evaluated from the integrator's state at exactly that time on the mesh moved to exactly that time, whether only the final time or a list of output times is asked for; the results handed out are those of the last entry of the run lists; and what is saved is what was reported, once per run and output time, under the parameters of that run. A solver that has run before reports its next run in the same way.",
  ["inputs", "configurations"], "all nine problem types, both geometries, any number of cells, angles, order, output times, nodes; run lists of one and two entries; with and without a material equation",
  T3 + "none runs the solver; a wrong time index or a mesh left at another time changes results only slightly.",
  [F + "main_functions.py", "moving_mesh_transport/solver.py"],
  [("initial value problem and output", F + "main_functions.py:solve"), ("collection and saving", "moving_mesh_transport/solver.py:main_class.main")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
