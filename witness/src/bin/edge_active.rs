// expect: E0616 an edge's active pair is written from outside
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    mesh.edges[0].active_elems = None;
}
