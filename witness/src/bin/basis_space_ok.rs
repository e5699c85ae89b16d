// expect: OK a thread-safe basis space is used for assembly
use fem_2d::prelude::*;
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use std::sync::Arc;
#[derive(Clone, Debug)]
struct Shared(Arc<f64>);
impl HierCurlBasisFnSpace for Shared {
    fn with(_: usize, _: &[f64], _: bool) -> Self { Shared(Arc::new(0.0)) }
    fn norm(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn norm_d1(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn norm_d2(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang_d1(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang_d2(&self, _: usize, _: usize) -> f64 { *self.0 }
}
fn main() {
    let domain = Domain::unit(ContinuityCondition::HCurl);
    let _ = galerkin_sample_gep_hcurl::<Shared, CurlCurl, L2Inner>(&domain, None);
}
