"""The properties: statement, anchors and the functions/rules whose code decides each of them."""
P = []
SRC = "src/fem_domain/"
MESH = SRC + "domain/mesh.rs"; HREF = SRC + "domain/mesh/h_refinement.rs"; PREF = SRC + "domain/mesh/p_refinement.rs"
SPACE = SRC + "domain/mesh/space.rs"; ELEM = SRC + "domain/mesh/elem.rs"; ELT = SRC + "domain/mesh/element.rs"
EDGE = SRC + "domain/mesh/edge.rs"; NODE = SRC + "domain/mesh/node.rs"; DOM = SRC + "domain.rs"
DOF = SRC + "domain/dof.rs"; BS = SRC + "domain/dof/basis_spec.rs"; FIELDS = SRC + "domain/fields.rs"
BASIS = SRC + "basis.rs"; HIER = SRC + "basis/hierarchical_basis_fns.rs"
GAL = "src/fem_problem/galerkin.rs"; INT = "src/fem_problem/integration.rs"; INTS = "src/fem_problem/integration/integrals.rs"
GLQ = "src/fem_problem/integration/glq.rs"; LA = "src/fem_problem/linalg.rs"; SM = "src/fem_problem/linalg/sparse_matrix.rs"
NA = "src/fem_problem/linalg/nalgebra_solve.rs"; SL = "src/fem_problem/linalg/slepc_solve.rs"

def prop(id, title, statement, over, quant, why, files, mech, fns=(), rules=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, fns=list(fns), rules=list(rules), state=list(state), observe=list(observe)))

prop("C01", "Lookups by id return Err for unknown ids, never panic or alias",
     "Every public lookup that takes an element, edge or basis-function address returns an error for an address outside the mesh or domain and the entry with exactly that address otherwise. Descendant and ancestor queries return exactly the tree's members, with or without the start as asked.",
     ["inputs", "histories"], "all ids and addresses, over all meshes reachable by any refinement history",
     "Tests query a few valid ids and few out-of-range ones; the one-past-the-end id of most accessors is never tried.",
     [MESH, DOM, HREF, PREF], [("bounds test before the indexed access", MESH + ": elem_points, edge_points, descendant_elems, ancestor_elems, descendant_edges"), ("address lookup", DOM + ": get_basis_spec, local/descendant/ancestor_basis_specs")],
     ["Mesh::elem_points", "Mesh::elem_diag_points", "Mesh::edge_points", "Mesh::descendant_elems", "Mesh::rec_descendant_elems",
      "Mesh::ancestor_elems", "Mesh::rec_ancestor_elems", "Mesh::descendant_edges", "Mesh::rec_descendant_edges",
      "Mesh::elem_is_h_refineable", "Mesh::elem_p_refinement_window", "Domain::get_basis_spec", "Domain::local_basis_specs",
      "Domain::descendant_basis_specs", "Domain::ancestor_basis_specs", "<HRefError as From<MeshAccessError>>::from",
      "<PRefError as From<MeshAccessError>>::from", "Elem::parent_id", "Elem::child_ids", "Elem::has_children", "Elem::loc_stack",
      "Edge::parent_id", "Edge::child_ids", "Edge::has_children", "Edge::child_node_id", "Domain::elems", "Domain::edges", "Domain::nodes"])

prop("C02", "A refinement call that returns Err leaves the mesh unchanged",
     "Every h- or p-refinement and order-setting entry point either applies every requested refinement or returns an error with the mesh exactly as it was. A request naming an unknown or already h-refined element is an error; several requests for one element are combined where the call allows them and are an error elsewhere.",
     ["inputs", "histories", "fault_sequences"], "all request lists (any length, order, duplicates, invalid members anywhere) on all meshes",
     "Tests make a single failing request and look only at the returned error, not at the mesh left behind; a failure after a valid member is not exercised.",
     [MESH, PREF, HREF], [("validate everything, then apply", MESH + ": execute_p_refinements, set_expansion_orders"), ("refine a copy and commit it at the end", MESH + ": execute_h_refinements")],
     ["Mesh::h_refine_elems", "Mesh::h_refine_with_filter", "Mesh::global_h_refinement", "Mesh::execute_h_refinements",
      "Mesh::apply_h_refinements", "Mesh::p_refine_elems", "Mesh::p_refine_with_filter", "Mesh::p_refine_with_filter_bounded",
      "Mesh::global_p_refinement", "Mesh::execute_p_refinements", "Mesh::set_global_expansion_orders", "Mesh::set_expansion_on_elems",
      "Mesh::set_expansions_with_filter", "Mesh::set_expansion_orders", "has_duplicates", "PolyOrders::refine", "PolyOrders::set",
      "<Mesh as Clone>::clone", "<Elem as Clone>::clone", "<Edge as Clone>::clone", "<Node as Clone>::clone", "<PolyOrders as Clone>::clone"],
     rules=["mesh_writers", "atomic_refinements"], state=[("elems, edges, nodes", "the mesh's arena", MESH)])

prop("C03", "Ids equal positions: elements, edges, nodes and DoFs are densely numbered",
     "After any construction, import or refinement history the entry stored at position k of each mesh and domain list has id k, and every id held by another entry is a valid position. Existing ids are never renumbered by a refinement.",
     ["histories", "inputs"], "all construction and refinement histories",
     "Tests check the counts of a few meshes after one or two refinements; no test checks the id of every stored entry after mixed refinements.",
     [MESH, DOM, ELEM, EDGE, NODE], [("one tracker per kind, taken in the order of insertion", MESH + ": execute_t/u/v_refinement, new_edge_between_nodes, upgrade_uninit_elems; " + DOM + ": IdTracker")],
     ["IdTracker::new", "IdTracker::next_id", "IdTracker::next_two_ids", "Mesh::blank", "Mesh::unit", "Mesh::execute_t_refinement", "Mesh::execute_u_refinement",
      "Mesh::execute_v_refinement", "Mesh::h_refine_edge_if_needed", "Mesh::new_edge_between_nodes", "Mesh::upgrade_uninit_elems",
      "Mesh::apply_h_refinements", "Elem::new", "Elem::h_refine", "ElemUninit::new", "ElemUninit::into_elem", "Edge::new", "Edge::h_refine", "Node::new",
      "HRef::indices_and_ids", "DoF::new", "<ElemUninit as Clone>::clone"],
     rules=["mesh_writers"])

prop("C04", "Refined children are connected to the right nodes, edges and parent",
     "Refining an element isotropically or along one direction produces children whose four nodes and edges are, side by side, those of the sub-rectangle each child covers, sharing the new interior edges and the halves of the parent's edges. The parent records exactly those children and each child its full ancestry.",
     ["histories", "inputs"], "all elements, all refinement kinds including extended ones, all neighbourhood refinement states",
     "Tests check node and edge ids for a refinement of the unit mesh only; halves of edges already split by a neighbour are not compared side by side.",
     [MESH, ELEM, EDGE, NODE], [("child tables", MESH + ": execute_t_refinement, execute_u_refinement, execute_v_refinement"), ("uninitialised-element slots", ELEM + ": ElemUninit")],
     ["Mesh::execute_t_refinement", "Mesh::execute_u_refinement", "Mesh::execute_v_refinement", "Mesh::h_refine_edge_if_needed",
      "Mesh::new_edge_between_nodes", "Mesh::upgrade_uninit_elems", "Mesh::apply_h_refinements", "Elem::h_refine", "Elem::new", "ElemUninit::new", "ElemUninit::set_node",
      "ElemUninit::set_edge", "ElemUninit::into_elem", "Edge::h_refine", "Edge::new", "Edge::connect_elem", "Node::connect_elem", "Node::new",
      "Mesh::unit", "HRef::indices_and_ids", "HRefLoc::index"])

prop("C05", "A child's parametric range is its location's part of the parent's range",
     "The range of a descendant relative to any ancestor is the composition of the half-open halves or quarters selected by each refinement on the path between them, and is the full range for the element itself. Ranges of the children of one refinement tile the parent's range.",
     ["histories", "inputs"], "all refinement paths of any depth",
     "Tests compute ranges for two or three hand-picked descendants.",
     [ELEM, HREF], [("sub-range of one step", HREF + ": HRefLoc::sub_range, HRef::loc"), ("composition along the ancestry", ELEM + ": relative_parametric_range")],
     ["HRefLoc::index", "HRefLoc::sub_range", "HRefLoc::sub_u_range", "HRefLoc::sub_v_range", "HRef::loc", "HRef::indices_and_ids",
      "Elem::relative_parametric_range", "Elem::parametric_range", "Elem::loc_stack", "Elem::h_refine", "<HRefLoc as PartialEq>::eq", "<HRefLoc as Clone>::clone"])

prop("C06", "Combining and describing h-refinements follows the refinement algebra",
     "Combining two h-refinements of one element gives the isotropic one whenever they differ in direction or either is isotropic, or extend two different children, and otherwise keeps the direction together with the extension either of them carries. Extended refinements accept only the two child indices, and refinement levels count each direction separately.",
     ["inputs"], "all pairs of refinements, all extension indices (0..=255), all levels",
     "Tests add a few pairs; combinations with extensions on either side and out-of-range child indices are not enumerated.",
     [HREF], [("combination table", HREF + ": AddAssign for HRef"), ("constructors and level update", HREF + ": HRef::u_extened, v_extened, HLevels::refined")],
     ["HRef::t", "HRef::u", "HRef::v", "HRef::u_extened", "HRef::v_extened", "<HRef as AddAssign>::add_assign", "HRef::indices_and_ids", "HLevels::from",
      "HLevels::refined", "HLevels::edge_ranking", "HLevels::node_ranking", "<HLevels as Default>::default", "<HLevels as PartialEq>::eq", "<HRef as PartialEq>::eq", "<HRef as Clone>::clone", "<HLevels as Clone>::clone"])

prop("C07", "p-refinement amounts add, clamp and compare as signed integers",
     "Combining, constraining and range-checking p-refinements gives the result of the corresponding signed integer operation, for every representable amount including the extreme ones, with no panic or wrap-around. The two directions never mix.",
     ["inputs"], "all pairs of 8-bit amounts and bounds",
     "Tests use small positive and negative amounts; the extreme amounts and equal bounds are not tried.",
     [PREF], [("sign-magnitude representation and conversion", PREF + ": PRefInt::from_i8, as_i8"), ("combination", PREF + ": AddAssign, constrain, within")],
     ["PRefInt::refine", "PRefInt::from_i8", "PRefInt::as_i8", "PRefInt::constrain", "PRefInt::within", "<PRefInt as AddAssign>::add_assign",
      "PRef::from", "PRef::on_dir", "PRef::as_array", "PRef::constrained_to", "PRef::falls_within", "PRef::refine_i", "PRef::refine_j",
      "<PRef as AddAssign>::add_assign", "<PRefInt as PartialEq>::eq", "<PRef as PartialEq>::eq", "<PRefInt as Clone>::clone", "<PRef as Clone>::clone"])

prop("C08", "Expansion orders always stay within 1 and the maximum order",
     "No sequence of refinement or order-setting calls leaves an element with an expansion order below 1 or above the documented maximum; a request that would do so is an error, and the refinement window offered for an element is exactly the set of admissible amounts.",
     ["inputs", "histories"], "all order pairs, all amounts, all histories",
     "Tests stop after one or two steps and do not visit both bounds in both directions.",
     [PREF, MESH], [("checked update", PREF + ": PolyOrders::refine, PolyOrders::set, Orders::try_new"), ("window", MESH + ": elem_p_refinement_window")],
     ["PRefInt::refine", "PolyOrders::refine", "PolyOrders::set", "PolyOrders::max_with", "PolyOrders::as_array", "PolyOrders::permutations", "<PolyOrders as Default>::default",
      "Orders::try_new", "Orders::new", "Orders::to_array", "Mesh::elem_p_refinement_window", "Mesh::max_expansion_orders", "Mesh::set_expansion_orders",
      "Mesh::set_global_expansion_orders", "Mesh::set_expansion_on_elems", "Mesh::set_expansions_with_filter", "Mesh::p_refine_with_filter_bounded", "Mesh::execute_p_refinements",
      "<PolyOrders as PartialEq>::eq", "<Orders as PartialEq>::eq", "<Orders as Clone>::clone"],
     rules=["order_writers"])

prop("C09", "Degrees of freedom and basis specs refer to each other one to one",
     "Every basis spec of a constructed domain carries the id of exactly one degree of freedom, that degree of freedom lists its address, and each listed address leads back to it. Element-interior functions have a degree of freedom of their own; no function is left unassigned.",
     ["histories", "inputs"], "all meshes, orders and refinement states",
     "The test builds one domain and counts its degrees of freedom.",
     [DOM, DOF, BS], [("assembly and numbering", DOM + ": from_mesh, gen_basis_specs, push_basis_spec"), ("back references", DOF + ": DoF::new, get_basis_specs")],
     ["Domain::from_mesh", "Domain::blank", "Domain::unit", "Domain::gen_basis_specs", "Domain::push_basis_spec", "Domain::get_basis_spec", "DoF::new", "DoF::get_basis_specs",
      "BasisSpec::new", "BasisSpec::set_dof_and_idx", "BSAddress::new", "BasisSpec::integration_data", "IdTracker::next_id", "IdTracker::new", "<BasisSpec as Clone>::clone", "<BSAddress as Clone>::clone"],
     rules=["dof_writers"])

prop("C10", "Only functions that agree on a shared edge are matched on it",
     "Two edge functions of neighbouring elements are given one degree of freedom exactly when they lie on the same active edge from its two opposite sides, have the same tangential direction and the same order along that edge; all others, and those on inactive or boundary edges, get no shared degree of freedom.",
     ["histories", "inputs"], "all pairs of edge functions, all edge activations and orders, all refinement states",
     "Tests count degrees of freedom of two meshes; a mismatch in direction or order on a rarely refined edge is not compared.",
     [BS, DOM, EDGE], [("match predicate", BS + ": matches_with_edge"), ("pairing on active edges", DOM + ": from_mesh"), ("active pair", EDGE + ": active_elem_pair, other_active_elem_id")],
     ["BasisSpec::matches_with_edge", "BasisLoc::edge_bs", "BasisLoc::node_bs", "<BasisLoc as PartialEq>::eq", "<BasisDir as PartialEq>::eq", "<BasisSpec as PartialEq>::eq",
      "Domain::from_mesh", "Domain::gen_basis_specs", "Edge::active_elem_pair", "Edge::other_active_elem_id", "Edge::is_boundary", "Edge::last_entry", "<BasisLoc as Clone>::clone", "<BasisDir as Clone>::clone"])

prop("C11", "Each basis spec is located where its orders and direction put it",
     "For every direction and order pair the function is placed on the edge it is tangential to when its transverse order selects one, and in the element's interior otherwise, with the order pair unaltered. The order pairs of an element are exactly the full index grid of its expansion orders for each direction, each once.",
     ["inputs"], "all direction and order pairs up to the maximum order",
     "Tests look at a handful of order pairs.",
     [BS, PREF, DOM], [("location table", BS + ": BasisSpec::new"), ("index grid", PREF + ": PolyOrders::permutations; " + DOM + ": gen_basis_specs")],
     ["BasisSpec::new", "PolyOrders::permutations", "Domain::gen_basis_specs", "Domain::push_basis_spec", "BasisLoc::edge_bs", "BasisLoc::node_bs", "BasisSpec::integration_data", "BasisSpec::set_dof_and_idx"])

prop("C12", "The sparse matrix accumulates symmetrically and never loses an entry",
     "The value the matrix holds for a position is the sum of everything inserted for that position or its mirror image, by whichever insertion method, and absorbing another matrix adds all its entries and leaves it empty. A position outside the dimension panics instead of being stored.",
     ["inputs", "histories"], "all insertion sequences, positions and values",
     "Tests insert about ten entries in one order.",
     [SM], [("upper-triangle key and accumulate", SM + ": insert, insert_group, consume_matrix")],
     ["SparseMatrix::new", "SparseMatrix::insert", "SparseMatrix::insert_group", "SparseMatrix::take_entries", "SparseMatrix::consume_matrix",
      "SparseMatrix::num_entries", "SparseMatrix::iter_upper_tri", "<SparseMatrix as Clone>::clone"],
     rules=["private_fields"])

prop("C13", "Exported matrices hold both triangles, sorted, in the PETSc layout",
     "Converting a sparse matrix to dense or PETSc form yields the full symmetric matrix, each stored entry at both mirror positions and diagonal entries once, with row counts, column indices and values in the same row-major order. The file starts with the PETSc matrix header and holds big-endian values in the order header, row counts, columns, values.",
     ["inputs"], "all matrices of any dimension and sparsity",
     "The test writes one file and never reads it back.",
     [SM, LA], [("conversion", SM + ": From<SparseMatrix> for AIJMatrixBinary and DMatrix"), ("writer", SM + ": print_to_petsc_binary_file")],
     ["<Matrix<f64, Dynamic, Dynamic, VecStorage<f64, Dynamic, Dynamic>> as From<SparseMatrix>>::from", "<AIJMatrixBinary as From<SparseMatrix>>::from",
      "AIJMatrixBinary::print_to_petsc_binary_file", "SparseMatrix::write_to_petsc_binary_format", "GEP::print_to_petsc_binary_files", "GEP::to_nalgebra_dense_mats",
      "SparseMatrix::iter_upper_tri"])

prop("C14", "An external solve reports every failure and removes its temporary files",
     "Whatever way a solve through the external solver ends, the files it created under the solver's temporary directory are removed, and each failure (solver missing, not executable, each documented exit code, missing result file) is returned as its own error. A malformed result is never taken for a solution. Solutions are read from the files of the same run in the PETSc vector layout.",
     ["fault_sequences", "configurations"], "all exit codes, I/O failures at each step, missing environment",
     "No external solver is installed where the tests run, so none of these exits is reached.",
     [SL], [("drop guard and exit-code table", SL + ": slepc_solve_gep, TempFiles"), ("readers", SL + ": retrieve_solution, retrieve_eigenvector, retrieve_eigenvalue")],
     ["slepc_solve_gep", "retrieve_solution", "retrieve_eigenvector", "retrieve_eigenvalue", "unique_prefix", "<TempFiles<'_> as Drop>::drop", "clean_directory",
      "<SlepcGEPError as Clone>::clone", "<SlepcGEPError as Display>::fmt"], rules=["guard_first"])

prop("C15", "Matrix assembly rejects unusable input before doing any work",
     "Sampling a domain with the wrong continuity condition, with no degrees of freedom or with fewer quadrature points than the documented minimum in either direction returns the corresponding error; every other request returns a problem whose dimension is the number of degrees of freedom.",
     ["inputs", "configurations"], "all domains and quadrature settings",
     "Tests only sample valid requests.",
     [GAL], [("argument checks", GAL + ": galerkin_sample_gep_hcurl")],
     ["galerkin_sample_gep_hcurl", "<ContinuityCondition as PartialEq>::eq", "<ContinuityCondition as Clone>::clone", "GEP::new", "<GalerkinSamplingError as Display>::fmt", "<ContinuityCondition as Display>::fmt"])

prop("C16", "Assembly integrates every overlapping pair of functions exactly once",
     "For every element the two matrices receive, at the pair's degree-of-freedom indices, the respective integral of every unordered pair of its own functions and of every pair of one of its functions with one of a descendant's, each exactly once and none else. The integrals are sampled over the smaller element with the larger element's materials, and the two problem matrices are never exchanged.",
     ["inputs", "histories"], "all domains, refinement depths, basis orders",
     "One end-to-end test compares a single eigenvalue of one unrefined mesh.",
     [GAL, BASIS, DOM], [("pair loops", GAL + ": galerkin_sample_gep_hcurl"), ("descendant collection", DOM + ": descendant_basis_specs"), ("sample cache", BASIS + ": BasisFnSampler::sample_basis_fn")],
     ["galerkin_sample_gep_hcurl", "Domain::descendant_basis_specs", "Domain::local_basis_specs", "Domain::ancestor_basis_specs", "BasisSpec::integration_data", "BasisFnSampler::with", "BasisFnSampler::sample_basis_fn",
      "<BasisFnSampler<B> as Clone>::clone", "BSDescription::new", "<BSDescription as PartialEq>::eq", "<BSDescription as Hash>::hash", "<BSDescription as Clone>::clone", "default_ngq", "Elem::get_materials",
      "Mesh::descendant_elems", "Mesh::rec_descendant_elems", "Mesh::max_expansion_orders", "IntegralResult::full_solution", "Materials::from_array", "<Materials as Default>::default", "<Materials as Clone>::clone"])

prop("C17", "Parallel assembly loses and duplicates nothing on any schedule",
     "Whatever order worker threads finish in, the assembled problem is the sum of every element's contribution, each added exactly once to its own matrix. The parallel part shares nothing mutable but a cache whose entries depend only on their key.",
     ["schedules"], "all interleavings and thread counts",
     "A test runs whatever schedule happens to occur and checks one eigenvalue.",
     [LA, GAL, BASIS, SM], [("send every contribution, receive until all senders are gone", LA + ": ParallelExtend for GEP"), ("shared cache", BASIS + ": BasisFnSampler")],
     ["<GEP as ParallelExtend<[SparseMatrix; 2]>>::par_extend", "SparseMatrix::consume_matrix", "SparseMatrix::take_entries", "GEP::new", "BasisFnSampler::sample_basis_fn", "<BasisFnSampler<B> as Clone>::clone",
      "BSDescription::new", "<BSDescription as PartialEq>::eq", "<BSDescription as Hash>::hash", "<GEP as Clone>::clone"],
     rules=["no_shared_state"])

prop("C18", "Basis functions follow the curl-conforming definition on any sub-region",
     "Values, derivatives and mixed derivatives of each vector basis function are the documented products of the space's normal and tangential factors with the inverse Jacobian and parametric scaling, at the requested point, whether sampled over the element or over any descendant. Scaling queries report the sampled region's size relative to the element.",
     ["inputs"], "all orders, points, elements and descendants",
     "Tests evaluate one function on the unit element.",
     [BASIS, ELT, ELEM], [("evaluation formulas", BASIS + ": f_u, f_v, f_u_d1, ..., f_v_dd"), ("construction over a descendant", BASIS + ": defined_over")],
     ["HierCurlBasisFn::f_u", "HierCurlBasisFn::f_v", "HierCurlBasisFn::f_u_d1", "HierCurlBasisFn::f_v_d1", "HierCurlBasisFn::f_u_d2", "HierCurlBasisFn::f_v_d2",
      "HierCurlBasisFn::f_u_dd", "HierCurlBasisFn::f_v_dd", "HierCurlBasisFn::glq_scale", "HierCurlBasisFn::edge_glq_scale", "HierCurlBasisFn::u_glq_scale",
      "HierCurlBasisFn::v_glq_scale", "HierCurlBasisFn::deriv_scale", "HierCurlBasisFn::sample_scale", "HierCurlBasisFn::max_uv_ratio", "HierCurlBasisFn::uv_ratio", "HierCurlBasisFn::vu_ratio",
      "<HierCurlBasisFn<BSpace> as HierBasisFn>::defined_over", "Element::parametric_mapping", "Element::order_points", "Element::new", "map_range", "Elem::parametric_mapping", "Elem::relative_parametric_range",
      "<HierCurlBasisFn<BSpace> as Clone>::clone"])

prop("C19", "The two inner-product integrals compute their documented formulas",
     "For each pair of directions the curl-curl and L2 integrals sum, over the quadrature grid, the product of the two functions' curls or values with the documented material and aspect factors, and zero for unsupported directions; the by-parts forms add one term per edge with the edge's sign. Swapping the two functions of different direction swaps their roles and nothing else.",
     ["inputs"], "all direction pairs, orders, elements, materials and weights",
     "Tests compare the two integration forms for low orders on one element.",
     [INTS, INT], [("direction table", INTS + ": CurlCurl, L2Inner"), ("result type", INT + ": IntegralResult")],
     ["<CurlCurl as HierCurlIntegral>::with_weights", "<CurlCurl as HierCurlIntegral>::integrate", "<CurlCurl as HierCurlIntegral>::integrate_by_parts", "max_uv_ratios", "max_vu_ratios",
      "<L2Inner as HierCurlIntegral>::with_weights", "<L2Inner as HierCurlIntegral>::integrate", "<L2Inner as HierCurlIntegral>::integrate_by_parts", "partial_max",
      "IntegralResult::full_solution", "IntegralResult::unwrap_parts", "IntegralResult::get_face", "IntegralResult::get_edges", "HierCurlBasisFn::edge_glq_scale", "HierCurlBasisFn::glq_scale"])

prop("C20", "Quadrature sums cover each grid point once and rescale exactly",
     "The area sums weight each grid point with the product of its two weights, the inner form leaving out exactly the outermost ring, and the edge form running along the one requested side. Points mapped to a sub-range are the affine image with the matching scale, and generated points come in ascending order with their own weights, with zero-weight end points exactly when requested.",
     ["inputs"], "all weight lists, edge indices, point counts and ranges",
     "Tests integrate one polynomial with ten points.",
     [GLQ], [("sums", GLQ + ": real_gauss_quad, _inner, _edge"), ("points", GLQ + ": gauss_quadrature_points, scale_gauss_quad_points")],
     ["real_gauss_quad", "real_gauss_quad_inner", "real_gauss_quad_edge", "gauss_quadrature_points", "scale_gauss_quad_points", "default_ngq"])

prop("C21", "VTK export writes consistent counts, cells and values",
     "The file's point, cell, type and value counts are those of the leaf elements and the grid densities, each cell names the four corners of one grid square of its own element, and every field's values come in the order of the points. Asking for an unknown quantity is an error before any file is created.",
     ["inputs", "configurations"], "all meshes, grid densities (equal or not) and quantity lists",
     "A test writes one file with equal densities and does not read it.",
     [FIELDS], [("writer", FIELDS + ": print_quantities_to_vkt, write_vtk_quantity")],
     ["UniformFieldSpace::print_quantities_to_vkt", "UniformFieldSpace::print_all_to_vtk", "FieldQuantity::write_vtk_quantity", "uniform_range", "Mesh::elem_diag_points"])

prop("C22", "Field quantities are computed pointwise on every leaf element",
     "The x and y fields on each leaf element are the sums over all functions of it and its ancestors of solution value times function value at each grid point; mapped and combined quantities apply the operator at each point of the right operands. A wrong solution length or missing operand is an error and stores nothing.",
     ["inputs", "histories"], "all domains, densities, solutions, operators and operand names",
     "Tests compute one field on the unit domain.",
     [FIELDS], [("field sums", FIELDS + ": xy_fields"), ("operators", FIELDS + ": map_to_quantity, expression_2arg, operation")],
     ["UniformFieldSpace::new", "UniformFieldSpace::xy_fields", "UniformFieldSpace::map_to_quantity", "UniformFieldSpace::expression_2arg", "FieldQuantity::new", "FieldQuantity::insert_elem_values",
      "FieldQuantity::operation", "uniform_range", "<UniformFieldError as Display>::fmt", "Mesh::ancestor_elems", "Mesh::rec_ancestor_elems"])

prop("C23", "Mesh files are imported as described and exported completely",
     "Importing a mesh file builds exactly the described elements, materials, nodes and boundary edges with consistent connectivity, and a malformed or missing field is an error or panic, never a silently different mesh. Exporting writes every element, node and edge with its current relations, so that nothing of the refinement state is missing.",
     ["inputs", "histories"], "all well-formed and malformed files; all mesh states",
     "Tests import three files and never read an exported file back.",
     [MESH, ELT, ELEM, EDGE, NODE], [("parsing", MESH + ": from_file, parse_element_information, parse_node_information"), ("export", MESH + ": export_to_json and the to_json methods")],
     ["Mesh::from_file", "parse_element_information", "parse_node_information", "Mesh::export_to_json", "Element::to_json", "Elem::to_json", "Node::to_json", "Edge::to_json",
      "<JsonValue as From<HLevels>>::from", "<JsonValue as From<PolyOrders>>::from", "<JsonValue as From<ParaDir>>::from", "<JsonValue as From<Point>>::from", "Element::order_points", "Element::new", "Materials::from_array",
      "Point::from", "Point::orientation_with", "has_duplicates"])

prop("C24", "Edge activation is recomputed for every tree after each topology change",
     "After any refinement or import, each active edge's pair names, for each of its two sides, the most refined element attached on that side, and an edge is inactive when it lacks an element on a side or when its two halves are active. No refinement returns with the activation of an earlier topology.",
     ["histories"], "all refinement histories and neighbourhoods",
     "Tests look at the activation of single edges after one refinement.",
     [MESH, EDGE], [("activation pass", MESH + ": set_edge_activation, rec_set_edge_activation_in_tree"), ("per-edge choice", EDGE + ": set_activation, connect_elem")],
     ["Mesh::set_edge_activation", "Mesh::rec_set_edge_activation_in_tree", "Edge::set_activation", "Edge::reset_activation", "Edge::connect_elem", "Edge::active_elem_pair", "Edge::other_active_elem_id",
      "Edge::last_entry", "Edge::is_boundary", "Mesh::apply_h_refinements", "Mesh::execute_h_refinements", "Mesh::from_file", "Mesh::unit", "HLevels::edge_ranking"],
     rules=["activation_after_change"])

prop("C25", "The polynomial space's tables are its functions and their derivatives",
     "For every order and point the polynomial basis space returns the documented power and hierarchical polynomials and, for the first and second derivatives, the exact derivatives of those polynomials; the table without second derivatives agrees with the one that has them.",
     ["inputs"], "all orders and points",
     "Tests evaluate a few orders at a few points.",
     [HIER], [("recurrences", HIER + ": HierPoly::new_with_d2, new_without_d2")],
     ["HierPoly::new_with_d2", "HierPoly::new_without_d2", "<HierPoly as HierCurlBasisFnSpace>::with", "<HierPoly as HierCurlBasisFnSpace>::norm", "<HierPoly as HierCurlBasisFnSpace>::norm_d1",
      "<HierPoly as HierCurlBasisFnSpace>::norm_d2", "<HierPoly as HierCurlBasisFnSpace>::tang", "<HierPoly as HierCurlBasisFnSpace>::tang_d1", "<HierPoly as HierCurlBasisFnSpace>::tang_d2", "<HierPoly as Clone>::clone"],
     )

prop("C26", "The dense solver returns the eigenpair nearest the target, or an error",
     "The dense solver returns the eigenvalue closest to the target together with the eigenvector of that same eigenvalue, refuses problems above its size limit, a B matrix without Cholesky factorisation and an all-zero spectrum, and decomposes a matrix its symmetric decomposition is valid for. Normalising a solution divides by its Euclidean norm.",
     ["inputs"], "all problems and targets",
     "One test solves one problem.",
     [NA, LA], [("selection", NA + ": nalgebra_solve_gep"), ("normalisation", LA + ": normalized_eigenvector")],
     ["nalgebra_solve_gep", "EigenPair::normalized_eigenvector", "<NalgebraGEPError as Display>::fmt", "<NalgebraGEPError as Clone>::clone", "GEP::to_nalgebra_dense_mats"],
     rules=["symmetric_eigen"])

prop("C27", "Geometry primitives satisfy their algebra, ordering and hashing laws",
     "Vector and matrix operators compute the usual componentwise, inner, matrix and inverse results; point comparison, ordering and hashing are mutually consistent (equal points hash equally, and orderings follow the coordinates). The mapping of an element to real space interpolates its corners.",
     ["inputs"], "all coordinates, including negative and zero ones",
     "Tests check a few vectors and points.",
     [SPACE, ELT], [("operators", SPACE + ": V2D, M2D, Point, FloatRep")],
     ["V2D::from", "V2D::dot_with", "V2D::dot", "V2D::x", "V2D::y", "<V2D as Default>::default", "<V2D as Index<usize>>::index", "<V2D as Add>::add", "<V2D as Div<f64>>::div", "<V2D as Div>::div",
      "<V2D as Mul<f64>>::mul", "<V2D as Mul>::mul", "<V2D as Mul<&V2D>>::mul", "M2D::from", "M2D::det", "M2D::inverse", "M2D::transpose", "<M2D as Div<f64>>::div", "<M2D as Mul>::mul", "<M2D as Mul<V2D>>::mul",
      "Point::new", "Point::between", "Point::from", "Point::orientation_with", "Point::dist", "Point::x_order", "Point::y_order", "<Point as Default>::default", "<Point as Add>::add",
      "<Point as Div<f64>>::div", "<Point as Hash>::hash", "<Point as PartialEq>::eq", "FloatRep::from", "<FloatRep as Ord>::cmp", "<FloatRep as PartialOrd>::partial_cmp", "<FloatRep as PartialEq>::eq", "<FloatRep as Hash>::hash",
      "<ParaDir as PartialEq>::eq", "<ParaDir as Clone>::clone", "<V2D as Clone>::clone", "<M2D as Clone>::clone", "<Point as Clone>::clone", "<FloatRep as Clone>::clone", "Element::parametric_mapping", "map_range"])

prop("C28", "Every feature combination of the crate type-checks",
     "The library builds with each combination of its optional features, and the items a feature adds are available exactly when it is enabled.",
     ["configurations"], "all subsets of the declared features",
     "The test suite builds the default features only.",
     ["Cargo.toml", "src/lib.rs", HIER], [("feature gates", "src/lib.rs, " + HIER + ", to_json methods")], rules=["features"])

prop("C29", "Exported files are complete or the call returns an error",
     "Every export to a file either returns success with all bytes handed to the operating system, or returns the I/O error that prevented it; no write error is dropped. No export leaves data in a buffer whose flush failure is ignored.",
     ["fault_sequences"], "an I/O failure at any write, flush or open",
     "Tests only write to a healthy file system.",
     [MESH, FIELDS, SM, LA], [("explicit flush and error propagation", "export_to_json, print_quantities_to_vkt, print_to_petsc_binary_file")],
     ["Mesh::export_to_json", "UniformFieldSpace::print_quantities_to_vkt", "UniformFieldSpace::print_all_to_vtk", "FieldQuantity::write_vtk_quantity", "AIJMatrixBinary::print_to_petsc_binary_file", "SparseMatrix::write_to_petsc_binary_format", "GEP::print_to_petsc_binary_files"],
     rules=["io_discipline"])

prop("C30", "Mesh and DoF numbering and mesh export do not depend on chance",
     "Building, refining, numbering and exporting a mesh or domain gives the same ids, degrees of freedom and mesh files on every run: none of it depends on hash iteration order, time, thread identity or the environment.",
     ["schedules", "configurations"], "all runs, hash seeds and environments",
     "A single run cannot show that another run agrees.",
     [MESH, DOM, DOF, FIELDS], [("ordered collections only", MESH + ", " + DOM)], rules=["deterministic"])

prop("C31", "Types keep meshes, domains and results from being misused",
     "A field space cannot outlive or coexist with mutation of its domain, and matrix entries, parent/child relations, edge activation, stored field values, the two numbers of an order or order change, the comparison keys of a point and the tables of a basis function or integral cannot be written from outside the crate. Meshes, domains and problems can be shared between threads, and the crate contains no unsafe code.",
     ["programs"], "all client programs that type-check",
     "Tests are programs that compile; they cannot show that a misuse does not.",
     [FIELDS, SM, ELEM, EDGE, BASIS], [("borrow of the domain, private fields, Send/Sync", FIELDS + ": UniformFieldSpace; " + SM + ": SparseMatrix; " + ELEM + "; " + EDGE)], rules=["witnesses", "private_fields", "no_unsafe"])

prop("C32", "The max-ortho space is built from its published tables and conforms",
     "With the optional max-ortho space, tangential functions of order two and up vanish at both ends of the interval, normal functions are the Legendre polynomials, and the derivative tables are those of the same weighted sums. The variant with second derivatives agrees with the one without on what both compute.",
     ["inputs", "configurations"], "all supported orders and points, with the feature enabled",
     "The feature is off when the tests run.",
     [HIER], [("weight tables", HIER + ": Q_NUMERATORS, Q_DENOMINATORS, EUC_NORM_COEFFS"), ("recurrences", HIER + ": LegendrePoly, QFunction")],
     ["<HierMaxOrtho as HierCurlBasisFnSpace>::with", "<HierMaxOrtho as HierCurlBasisFnSpace>::norm", "<HierMaxOrtho as HierCurlBasisFnSpace>::norm_d1", "<HierMaxOrtho as HierCurlBasisFnSpace>::norm_d2",
      "<HierMaxOrtho as HierCurlBasisFnSpace>::tang", "<HierMaxOrtho as HierCurlBasisFnSpace>::tang_d1", "<HierMaxOrtho as HierCurlBasisFnSpace>::tang_d2",
      "QFunction::with", "QFunction::with_specs_and_no_2nd_derivs", "QFunction::with_specs_with_2nd_derivs", "LegendrePoly::new", "LegendrePoly::with", "LegendrePoly::with_specs_and_no_2nd_derivs",
      "LegendrePoly::with_specs_with_2nd_derivs", "LegendrePoly::weighted_value_sum", "LegendrePoly::weighted_prime_sum", "LegendrePoly::weighted_double_prime_sum", "get_q_weight_vector"],
     rules=["q_weights"])
