// expect: OK a refinement's result is examined
#![deny(unused_must_use)]
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    mesh.h_refine_elems(vec![0], HRef::T).unwrap();
}
