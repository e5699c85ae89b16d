// expect: E0382 a mesh is refined after a domain was built from it
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    let _domain = Domain::from_mesh(mesh, ContinuityCondition::HCurl);
    mesh.global_p_refinement(PRef::from(1, 1));
}
