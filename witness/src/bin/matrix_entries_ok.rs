// expect: OK matrix entries are written through insert
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
fn main() {
    let mut m = SparseMatrix::new(4);
    m.insert([0, 1], 1.0);
}
