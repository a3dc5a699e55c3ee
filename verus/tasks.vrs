// Tasks run where they are started; identifiers of sub-protocols.
//@std spawn
//@note ProtocolIDBuilder hands out the children of an identifier in order, at least as many as announced, all different (unit ids, C15).
pub struct Ready<T> { pub v: T }
pub fn ready<T>(v: T) -> (r: Ready<T>) ensures r.v == v { Ready { v } }
impl<T> Ready<T> { pub fn joined(self) -> (r: T) ensures r == self.v { self.v } }
pub fn check(b: bool) requires b { }
pub uninterp spec fn child(id: Seq<u8>, num: int, k: int) -> Seq<u8>;
#[verifier::external_body]
pub struct ProtocolIDBuilder<'a> { x: &'a u8 }
impl<'a> ProtocolIDBuilder<'a> {
    pub uninterp spec fn of(&self) -> (Seq<u8>, int, int);
    #[verifier::external_body]
    pub fn new(id: &'a ProtocolID, num: u64) -> (r: Self) ensures r.of() == (id@, num as int, 0int) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<ProtocolID>)
        ensures
            final(self).of() == (old(self).of().0, old(self).of().1, old(self).of().2 + 1),
            old(self).of().2 < old(self).of().1 ==> (r matches Some(c) && c@ == child(old(self).of().0, old(self).of().1, old(self).of().2)),
    { unimplemented!() }
}
