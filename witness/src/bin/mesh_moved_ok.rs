// expect: OK a mesh is refined and then moved into a domain
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    mesh.global_p_refinement(PRef::from(1, 1));
    let _domain = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
}
