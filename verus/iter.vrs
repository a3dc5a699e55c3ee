// Iterator chains as eager sequences.
//@std iter
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { t: std::marker::PhantomData<T> }

impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }

    #[verifier::external_body]
    pub fn zip<U, J: IntoIt<U>>(self, o: J) -> (r: It<(T, U)>)
        ensures
            r@.len() == (if self@.len() < o.items().len() { self@.len() } else { o.items().len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o.items()[i])
    { unimplemented!() }

    #[verifier::external_body]
    pub fn chain<J: IntoIt<T>>(self, o: J) -> (r: It<T>) ensures r@ == self@ + o.items() { unimplemented!() }

    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i])
    { unimplemented!() }

    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }

    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }

    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }

    // .chain(std::iter::repeat(x)).take(n)
    #[verifier::external_body]
    pub fn pad(self, x: T, n: usize) -> (r: It<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == (if i < self@.len() { self@[i] } else { x }) { unimplemented!() }

    #[verifier::external_body]
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures r.got() == self@ { unimplemented!() }
}

impl<'a, T: Clone> It<&'a T> {
    // elements are cloned; for Copy types that is a copy
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> cloned::<T>(*self@[i], #[trigger] r@[i]) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *self@[i] == #[trigger] r@[i] { unimplemented!() }
}

// for loops
#[verifier::external_body]
pub fn seq_of<T, J: IntoIt<T>>(j: J) -> (r: It<T>) ensures r@ == j.items(), r@.len() <= usize::MAX { unimplemented!() }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    // each element is taken once
    #[verifier::external_body]
    pub fn at(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
}

pub trait FromIt<T> { spec fn got(&self) -> Seq<T>; }
impl<T> FromIt<T> for Vec<T> { open spec fn got(&self) -> Seq<T> { self@ } }

pub trait IntoIt<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn into_it(self) -> (r: It<T>) ensures r@ == self.items();
}
impl<T> IntoIt<T> for It<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() }
}
impl<T> IntoIt<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> IntoIt<&'a T> for &'a Vec<T> {
    open spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<&'a T>) { unimplemented!() }
}

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub trait Its<T> {
    spec fn elems(&self) -> Seq<T>;
    fn it<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == refs::<T>(self.elems());
}
impl<T> Its<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> Its<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn it<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}

pub trait Ext<T> {
    spec fn has(&self) -> Seq<T>;
    fn ext<J: IntoIt<T>>(&mut self, j: J) ensures final(self).has() == old(self).has() + j.items();
}
impl<T> Ext<T> for Vec<T> {
    open spec fn has(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn ext<J: IntoIt<T>>(&mut self, j: J) { unimplemented!() }
}

pub trait Num: Sized { spec fn val(&self) -> int; }
impl Num for usize { open spec fn val(&self) -> int { *self as int } }
impl Num for u32 { open spec fn val(&self) -> int { *self as int } }
impl Num for u64 { open spec fn val(&self) -> int { *self as int } }

#[verifier::external_body]
pub fn range_of<N: Num>(a: N, b: N) -> (r: It<N>)
    ensures r@.len() == (if a.val() <= b.val() { b.val() - a.val() } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).val() == a.val() + i
{ unimplemented!() }
pub open spec fn reps<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }
#[verifier::external_body]
pub fn repeat_n<T: Copy>(x: T, n: usize) -> (r: It<T>) ensures r@ == reps(x, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: It<T>) ensures r@ == seq![x] { unimplemented!() }
