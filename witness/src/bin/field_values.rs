// expect: E0616 stored field values are written from outside
use fem_2d::prelude::*;
fn main() {
    let domain = Domain::unit(ContinuityCondition::HCurl);
    let mut ufs = UniformFieldSpace::new(&domain, [4, 4]);
    ufs.quantities.clear();
}
