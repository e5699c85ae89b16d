// expect: OK a field space is used while its domain is unchanged, and the domain is changed afterwards
use fem_2d::prelude::*;
fn main() {
    let mut domain = Domain::unit(ContinuityCondition::HCurl);
    let n = domain.dofs.len();
    {
        let mut ufs = UniformFieldSpace::new(&domain, [4, 4]);
        let _ = ufs.xy_fields::<HierPoly>("f", vec![1.0; n]);
    }
    domain.dofs.clear();
}
