// Flattening.
pub open spec fn cat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub proof fn cat_cells<T>(s: Seq<Seq<T>>, m: int)
    requires 0 <= m, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == m
    ensures cat(s).len() == s.len() * m, forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < m ==> #[trigger] cell(cat(s), m, i, j) == s[i][j]
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() == m by { assert(s[i].len() == m); }
        cat_cells(d, m);
        assert(s.last().len() == m);
        assert(s.len() * m == d.len() * m + m) by (nonlinear_arith) requires s.len() == d.len() + 1;
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < m implies #[trigger] cell(cat(s), m, i, j) == s[i][j] by {
            if i < d.len() {
                assert(i * m + j < d.len() * m) by (nonlinear_arith) requires 0 <= i < d.len(), 0 <= j < m;
                assert(0 <= i * m) by (nonlinear_arith) requires 0 <= i, 0 <= m;
                assert(cell(cat(d), m, i, j) == d[i][j]);
            }
        }
    }
}
pub open spec fn items_of<U, C: IntoIt<U>>(cs: Seq<C>) -> Seq<Seq<U>> { Seq::new(cs.len(), |i: int| cs[i].items()) }
impl<T> It<T> {
    // the containers a flattened sequence was made of
    pub uninterp spec fn made<C>(&self) -> Seq<C>;
    #[verifier::external_body]
    pub fn flat_map<U, C: IntoIt<U>, F: Fn(T) -> C>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures
            r.made::<C>().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r.made::<C>()[i]),
            r@ == cat(items_of::<U, C>(r.made::<C>())),
            forall|p: Seq<Seq<U>>| p.len() == self@.len() && (forall|i: int| 0 <= i < p.len() ==> p[i] == r.made::<C>()[i].items()) ==> r@ == #[trigger] cat(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_iter<U>(self) -> (r: It<U>) where T: IntoIt<U> ensures r@ == cat(items_of::<U, T>(self@)) { unimplemented!() }
}
