"""How each function is best compared: (cut, roll).

cut  - calls to reference functions with more than this many MIR blocks are kept as calls on both
       sides (they are compared on their own), None = every call is expanded
roll - explicit sequences at least this long are treated as loops, None = never
The table only saves time: when the first form does not agree the others are tried."""
HEAVY = ["Domain::from_mesh", "Mesh::apply_h_refinements", "Mesh::execute_t_refinement", "Mesh::execute_u_refinement",
         "Mesh::execute_v_refinement", "Mesh::upgrade_uninit_elems", "Mesh::global_p_refinement", "Mesh::p_refine_elems",
         "Mesh::p_refine_with_filter", "Mesh::p_refine_with_filter_bounded", "Mesh::execute_p_refinements",
         "parse_node_information", "UniformFieldSpace::xy_fields", "galerkin_sample_gep_hcurl"]
FORMS = [(None, None), (4, None), (4, 4), (12, None)]
def forms(name):
    if name == "Mesh::from_file": first = (4, 4)
    elif name in HEAVY: first = (4, None)
    else: first = (None, None)
    return [first] + [f for f in FORMS if f != first]

# not part of the public interface (on the pinned tree): may be renamed, merged or removed freely
INTERNAL = set("""
<BSDescription as Clone>::clone
<BSDescription as Hash>::hash
<BSDescription as PartialEq>::eq
<ElemUninit as Clone>::clone
<FloatRep as Clone>::clone
<FloatRep as Hash>::hash
<FloatRep as Ord>::cmp
<FloatRep as PartialEq>::eq
<FloatRep as PartialOrd>::partial_cmp
<PRefInt as AddAssign>::add_assign
<PRefInt as Clone>::clone
<PRefInt as PartialEq>::eq
<TempFiles<'_> as Drop>::drop
BSDescription::new
Domain::gen_basis_specs
Domain::push_basis_spec
Edge::connect_elem
Edge::h_refine
Edge::last_entry
Edge::reset_activation
Edge::set_activation
Elem::h_refine
ElemUninit::into_elem
ElemUninit::new
ElemUninit::set_edge
ElemUninit::set_node
FieldQuantity::insert_elem_values
FieldQuantity::new
FieldQuantity::operation
FieldQuantity::write_vtk_quantity
FloatRep::from
HLevels::from
HRef::indices_and_ids
HRef::loc
HierPoly::new_with_d2
HierPoly::new_without_d2
IdTracker::new
IdTracker::next_id
IdTracker::next_two_ids
LegendrePoly::with_specs_and_no_2nd_derivs
LegendrePoly::with_specs_with_2nd_derivs
Mesh::apply_h_refinements
Mesh::execute_t_refinement
Mesh::execute_u_refinement
Mesh::execute_v_refinement
Mesh::h_refine_edge_if_needed
Mesh::new_edge_between_nodes
Mesh::rec_ancestor_elems
Mesh::rec_descendant_edges
Mesh::rec_descendant_elems
Mesh::rec_set_edge_activation_in_tree
Mesh::set_edge_activation
Mesh::upgrade_uninit_elems
Node::connect_elem
PRef::refine_i
PRef::refine_j
PRefInt::as_i8
PRefInt::constrain
PRefInt::from_i8
PRefInt::refine
PRefInt::within
QFunction::with_specs_and_no_2nd_derivs
QFunction::with_specs_with_2nd_derivs
SparseMatrix::take_entries
clean_directory
default_ngq
get_q_weight_vector
has_duplicates
map_range
max_uv_ratios
max_vu_ratios
parse_element_information
parse_node_information
partial_max
retrieve_eigenvalue
retrieve_eigenvector
retrieve_solution
uniform_range
unique_prefix
""".strip().split("\n"))
