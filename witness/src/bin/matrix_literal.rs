// expect: E0451 a matrix is built around its constructor
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
fn main() {
    let _ = SparseMatrix { dimension: 2, entries: Default::default() };
}
