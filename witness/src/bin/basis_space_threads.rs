// expect: E0277 a basis space that is not thread-safe is used for assembly
use fem_2d::prelude::*;
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use std::rc::Rc;
#[derive(Clone, Debug)]
struct Local(Rc<f64>);
impl HierCurlBasisFnSpace for Local {
    fn with(_: usize, _: &[f64], _: bool) -> Self { Local(Rc::new(0.0)) }
    fn norm(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn norm_d1(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn norm_d2(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang_d1(&self, _: usize, _: usize) -> f64 { *self.0 }
    fn tang_d2(&self, _: usize, _: usize) -> f64 { *self.0 }
}
fn main() {
    let domain = Domain::unit(ContinuityCondition::HCurl);
    let _ = galerkin_sample_gep_hcurl::<Local, CurlCurl, L2Inner>(&domain, None);
}
