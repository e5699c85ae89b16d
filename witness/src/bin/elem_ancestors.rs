// expect: E0616 an element's ancestry is written from outside
use fem_2d::prelude::*;
fn main() {
    let mut mesh = Mesh::unit();
    mesh.elems[0].ancestors.clear();
}
