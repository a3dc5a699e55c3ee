// Three-dimensional arrays: shape and elements in logical (row-major) order, whatever the memory layout.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array3<T> { t: std::marker::PhantomData<T> }
impl<T> Array3<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn dims(&self) -> (int, int, int);
    #[verifier::external_body]
    pub fn from_shape_vec(s: (usize, usize, usize), v: Vec<T>) -> (r: Result<Array3<T>, ()>)
        ensures
            r.is_ok() == (s.0 * s.1 * s.2 == v@.len()),
            r matches Ok(a) ==> a@ == v@ && a.dims() == (s.0 as int, s.1 as int, s.2 as int),
    { unimplemented!() }
}
pub broadcast axiom fn dims3<T>(a: Array3<T>) ensures 0 <= (#[trigger] a.dims()).0, 0 <= a.dims().1, 0 <= a.dims().2, a@.len() == a.dims().0 * a.dims().1 * a.dims().2;
impl<T> Its<T> for Array3<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> Clone for Array3<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Array3<T> {
    #[verifier::external_body]
    pub fn to_shared(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
