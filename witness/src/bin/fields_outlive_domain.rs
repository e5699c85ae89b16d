// expect: E0597 a field space outlives its domain
use fem_2d::prelude::*;
fn main() {
    let ufs;
    {
        let domain = Domain::unit(ContinuityCondition::HCurl);
        ufs = UniformFieldSpace::new(&domain, [4, 4]);
    }
    let _ = ufs.print_all_to_vtk("x");
}
