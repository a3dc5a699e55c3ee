// std::collections::HashMap as a finite map; keys compare by value.
pub trait Bor<Q>: Sized { spec fn up(q: Q) -> Self; }
impl<T> Bor<T> for T { open spec fn up(q: T) -> T { q } }
impl<'a, T> Bor<T> for &'a T { open spec fn up(q: T) -> &'a T { &q } }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn or_put(&mut self, k: K, v: V) -> (r: V) where V: Copy
        ensures final(self)@ == (if old(self)@.dom().contains(k) { old(self)@ } else { old(self)@.insert(k, v) }), r == final(self)@[k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q>(&self, k: &Q) -> (r: Option<&V>) where K: Bor<Q> ensures r.is_some() == self@.dom().contains(K::up(*k)), r matches Some(v) ==> *v == self@[K::up(*k)] { unimplemented!() }
}
//@note std::collections::HashMap behaves as a finite map on keys compared by value (Hash and Eq of the key type agree with equality).
// all entries, each once, in some order
pub uninterp spec fn entries<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub broadcast axiom fn a_entries<K, V>(m: Map<K, V>)
    ensures
        (#[trigger] entries(m)).len() == m.dom().len(),
        forall|i: int| 0 <= i < entries(m).len() ==> m.dom().contains((#[trigger] entries(m)[i]).0) && entries(m)[i].1 == m[entries(m)[i].0],
        forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < entries(m).len() && entries(m)[i] == (k, m[k]);
