// One-dimensional ndarray arrays and views.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array1<T> { t: std::marker::PhantomData<T> }
impl<T> Array1<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
}
pub type ArrayView1<T> = Array1<T>;
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Array1<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T> core::ops::Index<usize> for Array1<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() }
}
