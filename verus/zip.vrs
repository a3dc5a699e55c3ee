// ndarray's Zip over whole arrays.
#[verifier::external_body]
pub fn zip_upd<T, U, F: Fn(T, &U) -> T>(a: &mut Array1<T>, b: &Array1<U>, f: F)
    requires old(a)@.len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> f.requires((#[trigger] old(a)@[i], &b@[i]))
    ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < b@.len() ==> f.ensures((old(a)@[i], &b@[i]), #[trigger] final(a)@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn zip2<T, U, V, F: Fn(&T, &U) -> V>(a: &Array1<T>, b: &Array1<U>, f: F) -> (r: Array1<V>)
    requires a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> f.requires((&#[trigger] a@[i], &b@[i]))
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> f.ensures((&a@[i], &b@[i]), #[trigger] r@[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn zip3<T, U, S, V, F: Fn(&T, &U, &S) -> V>(a: &Array1<T>, b: &Array1<U>, c: &Array1<S>, f: F) -> (r: Array1<V>)
    requires a@.len() == b@.len(), a@.len() == c@.len(), forall|i: int| 0 <= i < a@.len() ==> f.requires((&#[trigger] a@[i], &b@[i], &c@[i]))
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> f.ensures((&a@[i], &b@[i], &c@[i]), #[trigger] r@[i])
{ unimplemented!() }
