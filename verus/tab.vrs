// More of ndarray: reshaping, stacking, sums along an axis, rows of three-dimensional arrays.
//@std tab
impl<T> Array3<T> {
    #[verifier::opaque]
    pub open spec fn at3(&self, i: int, j: int, k: int) -> T { self@[(i * self.dims().1 + j) * self.dims().2 + k] }
    pub open spec fn line(&self, i: int, j: int) -> Seq<T> { Seq::new(self.dims().2 as nat, |k: int| self.at3(i, j, k)) }
    #[verifier::external_body]
    pub fn index_axis(&self, a: Axis, i: usize) -> (r: Array2<T>)
        requires a.0 == 0, i < self.dims().0
        ensures r.rows() == self.dims().1, r.cols() == self.dims().2, forall|j: int, k: int| #[trigger] r.at(j, k) == self.at3(i as int, j, k), forall|j: int| #[trigger] r.row_s(j) == self.line(i as int, j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn row3(&self, i: usize, j: usize) -> (r: Array1<T>)
        requires i < self.dims().0, j < self.dims().1
        ensures r@ == self.line(i as int, j as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shape(&self) -> (r: &[usize]) ensures r@.len() == 3, r@[0] == self.dims().0, r@[1] == self.dims().1, r@[2] == self.dims().2 { unimplemented!() }
}
impl<const W: u8> Array3<GF<W>> {
    #[verifier::external_body]
    pub fn zeros(s: (usize, usize, usize)) -> (r: Self) ensures r.dims() == (s.0 as int, s.1 as int, s.2 as int), forall|i: int, j: int, k: int| #[trigger] r.at3(i, j, k) == zero::<W>() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, a: Axis, c: Array2<GF<W>>) -> (r: Result<(), ()>)
        requires a.0 == 0
        ensures
            r.is_ok() == (c.rows() == old(self).dims().1 && c.cols() == old(self).dims().2),
            r.is_ok() ==> final(self).dims() == (old(self).dims().0 + 1, old(self).dims().1, old(self).dims().2)
                && forall|i: int, j: int, k: int| #[trigger] final(self).at3(i, j, k) == if i == old(self).dims().0 { c.at(j, k) } else { old(self).at3(i, j, k) },
    { unimplemented!() }
    pub open spec fn pile(&self, j: int, k: int) -> Seq<GF<W>> { Seq::new(self.dims().0 as nat, |i: int| self.at3(i, j, k)) }
    // s![.., j, k]
    #[verifier::external_body]
    pub fn lane(&self, j: usize, k: usize) -> (r: Array1<GF<W>>)
        requires j < self.dims().1, k < self.dims().2
        ensures r@ == self.pile(j as int, k as int)
    { unimplemented!() }
}
impl<T> Array1<T> {
    #[verifier::external_body]
    pub fn single(x: T) -> (r: Self) ensures r@ == seq![x] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_shape(self, s: (usize, usize)) -> (r: Result<Array2<T>, ()>)
        ensures
            r.is_ok() == (s.0 * s.1 == self@.len()),
            r matches Ok(a) ==> a.rows() == s.0 && a.cols() == s.1 && forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> #[trigger] a.at(i, j) == cell(self@, s.1 as int, i, j),
    { unimplemented!() }
    // the same row many times
    #[verifier::external_body]
    pub fn broadcast(&self, s: (usize, usize)) -> (r: Option<Array2<T>>)
        ensures
            self@.len() == s.1 ==> r.is_some(),
            self@.len() == s.1 ==> (r matches Some(a) ==> a.rows() == s.0 && a.cols() == s.1 && (forall|i: int, j: int| #[trigger] a.at(i, j) == self@[j]) && forall|i: int| #[trigger] a.row_s(i) == self@),
    { unimplemented!() }
}
impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn stacked(a: Axis, v: Vec<Array1<T>>) -> (r: Array2<T>)
        requires a.0 == 0, v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i])@.len() == v@[0]@.len()
        ensures r.rows() == v@.len(), r.cols() == v@[0]@.len(), forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < r.cols() ==> #[trigger] r.at(i, j) == v@[i]@[j]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, a: Axis, c: Array1<T>) -> (r: Result<(), ()>)
        requires a.0 < 2
        ensures
            a.0 == 0 ==> r.is_ok() == (c@.len() == old(self).cols()),
            a.0 == 0 && r.is_ok() ==> final(self).cols() == old(self).cols() && final(self).rows() == old(self).rows() + 1
                && forall|i: int, j: int| #[trigger] final(self).at(i, j) == if i == old(self).rows() { c@[j] } else { old(self).at(i, j) },
            a.0 == 1 ==> r.is_ok() == (c@.len() == old(self).rows()),
            a.0 == 1 && r.is_ok() ==> final(self).rows() == old(self).rows() && final(self).cols() == old(self).cols() + 1
                && forall|i: int, j: int| #[trigger] final(self).at(i, j) == if j == old(self).cols() { c@[i] } else { old(self).at(i, j) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, a: Axis, c: Array2<T>) -> (r: Result<(), ()>)
        requires a.0 == 0
        ensures
            r.is_ok() == (c.cols() == old(self).cols()),
            r.is_ok() ==> final(self).cols() == old(self).cols() && final(self).rows() == old(self).rows() + c.rows()
                && forall|i: int, j: int| #[trigger] final(self).at(i, j) == if i < old(self).rows() { old(self).at(i, j) } else { c.at(i - old(self).rows(), j) },
    { unimplemented!() }
}
pub open spec fn sumv<const W: u8>(s: Seq<GF<W>>) -> GF<W> decreases s.len() { if s.len() == 0 { zero() } else { add(sumv(s.drop_last()), s.last()) } }
impl<const W: u8> Array2<GF<W>> {
    #[verifier::external_body]
    pub fn sum_axis(&self, a: Axis) -> (r: Array1<GF<W>>)
        requires a.0 == 0
        ensures r@.len() == self.cols(), forall|j: int| 0 <= j < self.cols() ==> #[trigger] r@[j] == sumv(self.col_s(j))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_in(&mut self, o: &Array2<GF<W>>)
        requires o.rows() == old(self).rows(), o.cols() == old(self).cols()
        ensures final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(), forall|i: int, j: int| #[trigger] final(self).at(i, j) == add(old(self).at(i, j), o.at(i, j))
    { unimplemented!() }
}
impl<const W: u8> Array1<GF<W>> {
    #[verifier::external_body]
    pub fn add_in(&mut self, o: &Array1<GF<W>>)
        requires o@.len() == old(self)@.len()
        ensures final(self)@ == paddv(old(self)@, o@)
    { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<Array2<GF<W>>> for Array2<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Array2<GF<W>>) -> bool { self.rows() == rhs.rows() && self.cols() == rhs.cols() }
    open spec fn add_spec(self, rhs: Array2<GF<W>>) -> Array2<GF<W>> { arbitrary() }
}
impl<const W: u8> core::ops::Add<Array2<GF<W>>> for Array2<GF<W>> {
    type Output = Array2<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: Array2<GF<W>>) -> (r: Array2<GF<W>>) ensures r.rows() == self.rows(), r.cols() == self.cols(), forall|i: int, j: int| #[trigger] r.at(i, j) == add(self.at(i, j), rhs.at(i, j)) { unimplemented!() }
}
impl<const W: u8> Array1<GF<W>> {
    // self + &rhs: the row is added to every row
    #[verifier::external_body]
    pub fn plus_rows(self, rhs: &Array2<GF<W>>) -> (r: Array2<GF<W>>)
        requires self@.len() == rhs.cols()
        ensures r.rows() == rhs.rows(), r.cols() == rhs.cols(), forall|i: int, j: int| #[trigger] r.at(i, j) == add(self@[j], rhs.at(i, j))
    { unimplemented!() }
}
impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn from_shape_fn<F: Fn((usize, usize)) -> T>(s: (usize, usize), f: F) -> (r: Self)
        requires forall|i: usize, j: usize| i < s.0 && j < s.1 ==> #[trigger] f.requires(((i, j),))
        ensures r.rows() == s.0, r.cols() == s.1, forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> f.ensures(((i as usize, j as usize),), #[trigger] r.at(i, j))
    { unimplemented!() }
    // every column replaced by what f makes of it
    #[verifier::external_body]
    pub fn map_columns<F: Fn(Array1<T>) -> Vec<T>>(&mut self, f: F)
        requires
            forall|c: Array1<T>| c@.len() == old(self).rows() ==> #[trigger] f.requires((c,)),
            forall|c: Array1<T>, o: Vec<T>| c@.len() == old(self).rows() && #[trigger] f.ensures((c,), o) ==> o@.len() == old(self).rows(),
        ensures
            final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|j: int| 0 <= j < old(self).cols() ==> exists|c: Array1<T>, o: Vec<T>| c@ == old(self).col_s(j) && #[trigger] f.ensures((c,), o) && o@ == #[trigger] final(self).col_s(j),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn joined(a: Axis, v: Vec<Array2<T>>) -> (r: Array2<T>)
        requires a.0 == 0, v@.len() == 2, v@[0].cols() == v@[1].cols()
        ensures r.rows() == v@[0].rows() + v@[1].rows(), r.cols() == v@[0].cols(), forall|i: int, j: int| #[trigger] r.at(i, j) == if i < v@[0].rows() { v@[0].at(i, j) } else { v@[1].at(i - v@[0].rows(), j) }
    { unimplemented!() }
}
impl<const W: u8> Array2<GF<W>> {
    #[verifier::external_body]
    pub fn eye(n: usize) -> (r: Self) ensures r.rows() == n, r.cols() == n, forall|i: int, j: int| #[trigger] r.at(i, j) == unit::<W>(i, j) { unimplemented!() }
}
pub open spec fn unit<const W: u8>(i: int, j: int) -> GF<W> { if i == j { one() } else { zero() } }
impl<'a, const W: u8> vstd::std_specs::ops::AddSpecImpl<&'a Array2<GF<W>>> for Array2<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Array2<GF<W>>) -> bool { self.rows() == rhs.rows() && self.cols() == rhs.cols() }
    open spec fn add_spec(self, rhs: &'a Array2<GF<W>>) -> Array2<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Add<&'a Array2<GF<W>>> for Array2<GF<W>> {
    type Output = Array2<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: &'a Array2<GF<W>>) -> (r: Array2<GF<W>>) ensures r.rows() == self.rows(), r.cols() == self.cols(), forall|i: int, j: int| #[trigger] r.at(i, j) == add(self.at(i, j), rhs.at(i, j)) { unimplemented!() }
}
