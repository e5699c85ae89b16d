// expect: E0616 an element's children are written from outside
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    mesh.elems[0].children = None;
}
