// ndarray matrices as the code uses them.
// Element (i, j) of a matrix with rows of length w stored row by row.
pub open spec fn cell<T>(s: Seq<T>, w: int, i: int, j: int) -> T { s[i * w + j] }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { t: std::marker::PhantomData<T> }
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;

    #[verifier::external_body]
    pub fn from_shape_vec(s: (usize, usize), v: Vec<T>) -> (r: Result<Array2<T>, ()>)
        ensures
            r.is_ok() == (s.0 * s.1 == v@.len()),
            r matches Ok(a) ==> a.rows() == s.0 && a.cols() == s.1
                && forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> #[trigger] a.at(i, j) == cell(v@, s.1 as int, i, j)
    { unimplemented!() }
}
