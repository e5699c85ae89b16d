// expect: E0502 the domain is changed while a field space over it is in use
use fem_2d::prelude::*;
fn main() {
    let mut domain = Domain::unit(ContinuityCondition::HCurl);
    let n = domain.dofs.len();
    let mut ufs = UniformFieldSpace::new(&domain, [4, 4]);
    domain.dofs.clear();
    let _ = ufs.xy_fields::<HierPoly>("f", vec![1.0; n]);
}
