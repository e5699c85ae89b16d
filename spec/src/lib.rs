#![allow(dead_code, non_snake_case, clippy::all)]
pub mod basis;
pub mod domain;
pub mod fields;
pub mod galerkin;
pub mod glq;
pub mod hier;
pub mod integ;
pub mod linalg;
pub mod mesh;
pub mod nalg;
pub mod parts;
pub mod refine;
pub mod slepc;
pub mod space;
pub mod sparse;
pub use basis::*;
pub use domain::*;
pub use fields::*;
pub use galerkin::*;
pub use glq::*;
pub use hier::*;
pub use integ::*;
pub use linalg::*;
pub use mesh::*;
pub use nalg::*;
pub use parts::*;
pub use refine::*;
pub use slepc::*;
pub use space::*;
pub use sparse::*;

pub const MIN_EDGE_LENGTH: f64 = 3.0518e-5;
pub const EXPECTED_NUM_H_REFINEMENTS: usize = 8;
pub const MAX_POLYNOMIAL_ORDER: u8 = 20;
