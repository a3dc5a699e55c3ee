// Queues, and conversions between vectors and queues.
//@std into
//@note std: VecDeque and Vec convert into each other keeping elements and order; VecDeque::drain(..k) removes and yields the first k.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { t: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_to(&mut self, k: usize) -> (r: It<T>) requires k <= old(self)@.len() ensures r@ == old(self)@.take(k as int), final(self)@ == old(self)@.skip(k as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, k: usize) ensures final(self)@ == (if k <= old(self)@.len() { old(self)@.take(k as int) } else { old(self)@ }) { unimplemented!() }
}
pub trait Conv<R>: Sized {
    spec fn same(&self, r: &R) -> bool;
    fn conv(self) -> (r: R) ensures self.same(&r);
}
impl<T> Conv<VecDeque<T>> for Vec<T> {
    open spec fn same(&self, r: &VecDeque<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn conv(self) -> (r: VecDeque<T>) { unimplemented!() }
}
impl<T> Conv<Vec<T>> for VecDeque<T> {
    open spec fn same(&self, r: &Vec<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn conv(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> FromIt<T> for VecDeque<T> { open spec fn got(&self) -> Seq<T> { self@ } }
//@include cuts.vrs
