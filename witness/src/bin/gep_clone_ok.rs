// expect: OK a copy of a problem is handed to a solver
use fem_2d::prelude::*;
fn main() {
    let gep = GEP::new(4);
    let _ = nalgebra_solve_gep(gep.clone(), 1.0);
    let _ = gep.a.num_entries();
}
