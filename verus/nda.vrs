// ndarray arrays as the code uses them: one- and two-dimensional, views are the same as arrays (views here are only read).
//@note ndarray: element-wise operators, dot, push_column/push_row/append, index_axis, slices and from_shape_vec have their documented meaning (contracts of Array1/Array2/Array3 in verus/nda*.vrs); a view is treated as a copy of what it shows.
pub open spec fn cell<T>(s: Seq<T>, w: int, i: int, j: int) -> T { s[i * w + j] }
pub struct Axis(pub usize);

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array1<T> { t: std::marker::PhantomData<T> }
pub type ArrayView1<T> = Array1<T>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> { t: std::marker::PhantomData<T> }
pub type ArrayView2<T> = Array2<T>;

impl<T> Clone for Array1<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for Array2<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Array1<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter<J: IntoIt<T>>(v: J) -> (r: Self) ensures r@ == v.items() { unimplemented!() }
    #[verifier::external_body]
    pub fn of(v: &[T]) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vw(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn shape(&self) -> (r: &[usize]) ensures r@.len() == 1, r@[0] == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[T]>) ensures r matches Some(s) && s@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    // s![a..]
    #[verifier::external_body]
    pub fn sl_from(&self, a: usize) -> (r: Self) requires a <= self@.len() ensures r@ == self@.skip(a as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn sl_to(&self, a: usize) -> (r: Self) requires a <= self@.len() ensures r@ == self@.take(a as int) { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Array1<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T> core::ops::Index<usize> for Array1<T> {
    type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() }
}
impl<T> IntoIt<T> for Array1<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() }
}
impl<T> Its<T> for Array1<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T: Copy> Array1<T> {
    #[verifier::external_body]
    pub fn from_elem(n: usize, x: T) -> (r: Self) ensures r@ == reps(x, n as int) { unimplemented!() }
}

impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    pub open spec fn row_s(&self, i: int) -> Seq<T> { Seq::new(self.cols(), |j: int| self.at(i, j)) }
    pub open spec fn col_s(&self, j: int) -> Seq<T> { Seq::new(self.rows(), |i: int| self.at(i, j)) }

    #[verifier::external_body]
    pub fn from_shape_vec(s: (usize, usize), v: Vec<T>) -> (r: Result<Array2<T>, ()>)
        ensures
            r.is_ok() == (s.0 * s.1 == v@.len()),
            r matches Ok(a) ==> a.rows() == s.0 && a.cols() == s.1
                && forall|i: int, j: int| 0 <= i < s.0 && 0 <= j < s.1 ==> #[trigger] a.at(i, j) == cell(v@, s.1 as int, i, j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vw(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn shape(&self) -> (r: &[usize]) ensures r@.len() == 2, r@[0] == self.rows(), r@[1] == self.cols() { unimplemented!() }
    #[verifier::external_body]
    pub fn reversed_axes(self) -> (r: Self) ensures r.rows() == self.cols(), r.cols() == self.rows(), forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(j, i), forall|j: int| #[trigger] r.col_s(j) == self.row_s(j), forall|j: int| #[trigger] r.row_s(j) == self.col_s(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_column(&mut self, c: Array1<T>) -> (r: Result<(), ()>)
        ensures
            r.is_ok() == (c@.len() == old(self).rows()),
            r.is_ok() ==> final(self).rows() == old(self).rows() && final(self).cols() == old(self).cols() + 1
                && forall|i: int, j: int| #[trigger] final(self).at(i, j) == if j == old(self).cols() { c@[i] } else { old(self).at(i, j) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn index_axis(&self, a: Axis, i: usize) -> (r: Array1<T>)
        requires a.0 < 2, i < (if a.0 == 0 { self.rows() } else { self.cols() })
        ensures r@ == if a.0 == 0 { self.row_s(i as int) } else { self.col_s(i as int) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn row(&self, i: usize) -> (r: Array1<T>) requires i < self.rows() ensures r@ == self.row_s(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn column(&self, i: usize) -> (r: Array1<T>) requires i < self.cols() ensures r@ == self.col_s(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn axis_iter(&self, a: Axis) -> (r: It<Array1<T>>)
        requires a.0 < 2
        ensures
            a.0 == 0 ==> r@.len() == self.rows() && forall|i: int| 0 <= i < self.rows() ==> (#[trigger] r@[i])@ == self.row_s(i),
            a.0 == 1 ==> r@.len() == self.cols() && forall|j: int| 0 <= j < self.cols() ==> (#[trigger] r@[j])@ == self.col_s(j),
    { unimplemented!() }
    // s![.., ..a], s![.., a..]
    #[verifier::external_body]
    pub fn sl_cols_to(&self, a: usize) -> (r: Self) requires a <= self.cols() ensures r.rows() == self.rows(), r.cols() == a, forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j), forall|j: int| #[trigger] r.col_s(j) == self.col_s(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn sl_cols_from(&self, a: usize) -> (r: Self) requires a <= self.cols() ensures r.rows() == self.rows(), r.cols() == self.cols() - a, forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j + a), forall|j: int| #[trigger] r.col_s(j) == self.col_s(j + a) { unimplemented!() }
    // s![..a, ..]
    #[verifier::external_body]
    pub fn sl_rows_to(&self, a: usize) -> (r: Self) requires a <= self.rows() ensures r.rows() == a, r.cols() == self.cols(), forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j), forall|i: int| #[trigger] r.row_s(i) == self.row_s(i) { unimplemented!() }
}
impl<T: Copy> Array2<T> {
    #[verifier::external_body]
    pub fn from_elem(s: (usize, usize), x: T) -> (r: Self) ensures r.rows() == s.0, r.cols() == s.1, forall|i: int, j: int| #[trigger] r.at(i, j) == x { unimplemented!() }
}

// Sums of products.
pub open spec fn dot<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>) -> GF<W> decreases a.len() {
    if a.len() == 0 { zero() } else { add(dot(a.drop_last(), b.drop_last()), mul(a.last(), b.last())) }
}
pub open spec fn pmul<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(a.len(), |i: int| mul(a[i], b[i])) }
pub open spec fn paddv<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(a.len(), |i: int| add(a[i], b[i])) }

// Products: matrix by vector, matrix by matrix, vector by vector, vector by matrix.
pub trait Dot<R> {
    type Out;
    spec fn can(&self, r: &R) -> bool;
    spec fn gives(&self, r: &R, o: &Self::Out) -> bool;
    fn dot(&self, r: &R) -> (o: Self::Out) requires self.can(r) ensures self.gives(r, &o);
}
impl<const W: u8> Dot<Array1<GF<W>>> for Array2<GF<W>> {
    type Out = Array1<GF<W>>;
    open spec fn can(&self, r: &Array1<GF<W>>) -> bool { r@.len() == self.cols() }
    open spec fn gives(&self, r: &Array1<GF<W>>, o: &Array1<GF<W>>) -> bool { o@.len() == self.rows() && forall|i: int| 0 <= i < self.rows() ==> #[trigger] o@[i] == dot(self.row_s(i), r@) }
    #[verifier::external_body]
    fn dot(&self, r: &Array1<GF<W>>) -> (o: Array1<GF<W>>) { unimplemented!() }
}
impl<const W: u8> Dot<Array2<GF<W>>> for Array2<GF<W>> {
    type Out = Array2<GF<W>>;
    open spec fn can(&self, r: &Array2<GF<W>>) -> bool { r.rows() == self.cols() }
    open spec fn gives(&self, r: &Array2<GF<W>>, o: &Array2<GF<W>>) -> bool {
        o.rows() == self.rows() && o.cols() == r.cols() && forall|i: int, j: int| 0 <= i < o.rows() && 0 <= j < o.cols() ==> #[trigger] o.at(i, j) == dot(self.row_s(i), r.col_s(j))
    }
    #[verifier::external_body]
    fn dot(&self, r: &Array2<GF<W>>) -> (o: Array2<GF<W>>) { unimplemented!() }
}
impl<const W: u8> Dot<Array1<GF<W>>> for Array1<GF<W>> {
    type Out = GF<W>;
    open spec fn can(&self, r: &Array1<GF<W>>) -> bool { r@.len() == self@.len() }
    open spec fn gives(&self, r: &Array1<GF<W>>, o: &GF<W>) -> bool { *o == dot(self@, r@) }
    #[verifier::external_body]
    fn dot(&self, r: &Array1<GF<W>>) -> (o: GF<W>) { unimplemented!() }
}
impl<const W: u8> Dot<Array2<GF<W>>> for Array1<GF<W>> {
    type Out = Array1<GF<W>>;
    open spec fn can(&self, r: &Array2<GF<W>>) -> bool { r.rows() == self@.len() }
    open spec fn gives(&self, r: &Array2<GF<W>>, o: &Array1<GF<W>>) -> bool { o@.len() == r.cols() && forall|j: int| 0 <= j < r.cols() ==> #[trigger] o@[j] == dot(self@, r.col_s(j)) }
    #[verifier::external_body]
    fn dot(&self, r: &Array2<GF<W>>) -> (o: Array1<GF<W>>) { unimplemented!() }
}
impl<const W: u8> Array1<GF<W>> {
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Self) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == zero::<W>() { unimplemented!() }
}
impl<T> Array2<T> {
    // row by row; of arrays in standard layout
    #[verifier::external_body]
    pub fn into_shape(self, n: usize) -> (r: Result<Array1<T>, ()>)
        ensures
            r.is_ok() == (self.rows() * self.cols() == n),
            r matches Ok(a) ==> a@.len() == n && forall|i: int, j: int| 0 <= i < self.rows() && 0 <= j < self.cols() ==> #[trigger] cell(a@, self.cols() as int, i, j) == self.at(i, j),
    { unimplemented!() }
}
