// expect: OK meshes, domains, problems and basis spaces can be shared between threads
use fem_2d::prelude::*;
fn shared<T: Send + Sync>() {}
fn main() {
    shared::<Mesh>();
    shared::<Domain>();
    shared::<GEP>();
    shared::<HierPoly>();
    shared::<CurlCurl>();
    shared::<L2Inner>();
    shared::<HRef>();
    shared::<PRef>();
    shared::<EigenPair>();
}
