// Queues, as in vd.vrs, except that taking more than there is does not return (it panics).
//@std into
//@note std: VecDeque::drain(..k) removes and yields the first k elements and panics, that is does not return, when there are fewer.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { t: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_to(&mut self, k: usize) -> (r: It<T>) ensures k <= old(self)@.len(), r@ == old(self)@.take(k as int), final(self)@ == old(self)@.skip(k as int) { unimplemented!() }
}
impl<T> FromIt<T> for VecDeque<T> { open spec fn got(&self) -> Seq<T> { self@ } }
//@include cuts.vrs
