// expect: E0616 matrix entries are written around the accumulating insert
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
fn main() {
    let mut m = SparseMatrix::new(4);
    m.entries.clear();
}
