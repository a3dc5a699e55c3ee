// Random elements: the generator keeps a record of what was drawn from it.
//@std coins
//@note A random generator is modelled by the list of elements drawn from it so far; each draw may be any element, for a seeded generator (ChaCha12Rng, StdRng) the one its seed and position determine (uniformity of a draw is C03 and the rand crate).
pub trait Rng: Sized {
    spec fn log<const W: u8>(&self) -> Seq<GF<W>>;
    // a generator with a seed draws the same elements every time
    spec fn seed(&self) -> Option<Seq<u8>>;
}
pub uninterp spec fn fresh<R>(r: R) -> bool;
pub axiom fn a_fresh<const W: u8, R: Rng>(r: R) requires fresh(r) ensures r.log::<W>() == Seq::<GF<W>>::empty();
pub uninterp spec fn stream<const W: u8>(seed: Seq<u8>, k: int) -> GF<W>;
#[verifier::external_body]
pub fn gf_rand<const W: u8, R: Rng>(rng: &mut R) -> (r: GF<W>)
    ensures final(rng).log::<W>() == old(rng).log::<W>().push(r), final(rng).seed() == old(rng).seed(), old(rng).seed() matches Some(s) ==> r == stream::<W>(s, old(rng).log::<W>().len() as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn draws<const W: u8, R: Rng>(a: usize, b: usize, rng: &mut R) -> (r: It<GF<W>>)
    ensures r@.len() == (if a <= b { b - a } else { 0 }), final(rng).log::<W>() == old(rng).log::<W>() + r@
{ unimplemented!() }
impl<const W: u8> It<GF<W>> {
    // these elements followed by as many drawn ones as are missing to k
    #[verifier::external_body]
    pub fn fill<R: Rng>(self, k: usize, rng: &mut R) -> (r: It<GF<W>>)
        ensures
            self@.len() >= k ==> r@ == self@.take(k as int) && final(rng).log::<W>() == old(rng).log::<W>(),
            self@.len() < k ==> r@.len() == k && (forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == self@[i]) && final(rng).log::<W>() == old(rng).log::<W>() + r@.skip(self@.len() as int),
    { unimplemented!() }
}
pub open spec fn bit<const W: u8>(x: GF<W>) -> bool { x == zero::<W>() || x == one::<W>() }
#[verifier::external_body]
pub fn bit_draws<const W: u8, N: Num, R: Rng>(a: N, b: N, rng: &mut R) -> (r: It<GF<W>>)
    ensures r@.len() == (if a.val() <= b.val() { b.val() - a.val() } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> bit(#[trigger] r@[i])
{ unimplemented!() }
