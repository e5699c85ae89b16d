// expect: OK relations are read through the queries
use fem_2d::prelude::*;
fn main() {
    let mesh = Mesh::unit();
    let _ = mesh.elems[0].child_ids();
    let _ = mesh.elems[0].loc_stack();
    let _ = mesh.edges[0].active_elem_pair();
}
