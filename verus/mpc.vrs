// One party's view of a protocol: context, network, messages.
//@std gf for arr zip
//@include net_types.vrs
//@include gf.vrs
//@include iter.vrs
//@include nda.vrs
//@include flat.vrs
//@include zip.vrs
//@include poly.vrs
//@include coins.vrs
//@include sh_theory.vrs
//@include pmul.vrs
//@item src/sharing.rs | pub type PackedShare<
//@note PackedSharing's share, rand, semihon_recon and recon_coeffs have the contracts proved in units share and semirecon (C09); bincode's encoding of a vector of elements is undone by its decoding (the element itself: C04); message_from_each_party returns one message of each party in party order (unit gather, C16); messages are delivered as sent (C17, C18).
use std::sync::Arc;

#[verifier::external_body]
pub struct PackedSharing<const W: u8> { x: u8 }
// row are the shares of a polynomial with np coefficients taking the given secrets at pos
pub open spec fn shares_for<const W: u8>(p: Seq<GF<W>>, row: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int, secrets: Seq<GF<W>>) -> bool {
    p.len() == np && row == shares_of(p, n) && forall|i: int| 0 <= i < pos.len() && i < secrets.len() ==> ev(p, #[trigger] pos[i]) == secrets[i]
}
pub open spec fn sharing<const W: u8>(row: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int, secrets: Seq<GF<W>>) -> bool {
    exists|p: Seq<GF<W>>| #[trigger] shares_for(p, row, pos, n, np, secrets)
}
pub open spec fn reads<const W: u8>(r: Seq<GF<W>>, shares: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool {
    r.len() == pos.len() && forall|p: Seq<GF<W>>, i: int| p.len() == np && shares == #[trigger] shares_of(p, n) && 0 <= i < pos.len() ==> #[trigger] r[i] == ev(p, pos[i])
}
impl<const W: u8> PackedSharing<W> {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn np(&self) -> int;
    pub uninterp spec fn pos(&self) -> Seq<GF<W>>;
    pub uninterp spec fn inv(&self) -> bool;  // what new establishes
    pub open spec fn ok(&self) -> bool { self.inv() && fits(self.pos(), self.n(), self.np()) && self.np() >= 1 }
    #[verifier::external_body]
    pub fn share<R: Rng>(&self, secrets: Array1<GF<W>>, rng: &mut R) -> (r: Vec<GF<W>>)
        requires self.ok()
        ensures r@.len() == self.n(), sharing(r@, self.pos(), self.n(), self.np(), secrets@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rand<R: Rng>(&self, rng: &mut R) -> (r: Vec<GF<W>>)
        requires self.ok()
        ensures r@.len() == self.n(), sharing(r@, self.pos(), self.n(), self.np(), seq![])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn semihon_recon(&self, shares: Array1<GF<W>>) -> (r: Vec<GF<W>>)
        requires self.ok(), shares@.len() == self.n()
        ensures reads(r@, shares@, self.pos(), self.n(), self.np())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recon_coeffs(&self) -> (r: Array2<GF<W>>)
        requires self.ok()
        ensures takes(r, shp::<W>(self.n()).skip(self.n() - self.np()), self.pos())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn num_secrets(&self) -> (r: u32) requires self.ok() ensures r == self.pos().len() { unimplemented!() }
}
#[verifier::external_body]
pub struct ThreadRng { x: u8 }
impl Rng for ThreadRng { uninterp spec fn log<const W: u8>(&self) -> Seq<GF<W>>; open spec fn seed(&self) -> Option<Seq<u8>> { None } }
#[verifier::external_body]
pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }

//@item src/protocol/mod.rs | pub struct MPCContext<
impl<const W: u8> Clone for MPCContext<W> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// Positions of packed secrets.
pub open spec fn defpos<const W: u8>(n: int, l: int) -> Seq<GF<W>> { Seq::new(l as nat, |i: int| gf::<W>((n + i) as u32)) }
impl<const W: u8> MPCContext<W> {
    pub open spec fn ok(&self) -> bool {
        let (n, l, t) = (self.n as int, self.l as int, self.t as int);
        &&& 1 <= n <= u16::MAX && self.id < n && 1 <= t + l <= n
        &&& self.pss.ok() && self.pss.n() == n && self.pss.np() == t + l && self.pss.pos() == defpos::<W>(n, l)
        &&& self.pss_n.ok() && self.pss_n.n() == n && self.pss_n.np() == n && self.pss_n.pos() == defpos::<W>(n, l)
    }
}

// Encoding of vectors of elements.
pub uninterp spec fn enc<const W: u8>(s: Seq<GF<W>>) -> Seq<u8>;
pub uninterp spec fn dec<const W: u8>(d: Seq<u8>) -> Seq<GF<W>>;
pub axiom fn a_dec<const W: u8>(s: Seq<GF<W>>) ensures dec::<W>(enc::<W>(s)) == s;
pub open spec fn encodes<const W: u8>(d: Seq<u8>, num: int) -> bool { enc::<W>(dec::<W>(d)) == d && dec::<W>(d).len() == num }
pub trait Elems<const W: u8> { spec fn listed(&self) -> Seq<GF<W>>; }
impl<const W: u8> Elems<W> for Vec<GF<W>> { open spec fn listed(&self) -> Seq<GF<W>> { self@ } }
impl<const W: u8> Elems<W> for [GF<W>] { open spec fn listed(&self) -> Seq<GF<W>> { self@ } }
#[verifier::external_body]
pub fn serialize<const W: u8, E: Elems<W> + ?Sized>(v: &E) -> (r: Result<Vec<u8>, ()>) ensures r matches Ok(d) && d@ == enc::<W>(v.listed()) { unimplemented!() }
pub trait Decode: Sized {
    spec fn valid(d: Seq<u8>) -> bool;
    spec fn is(&self, d: Seq<u8>) -> bool;
}
impl<const W: u8> Decode for Vec<GF<W>> {
    open spec fn valid(d: Seq<u8>) -> bool { enc::<W>(dec::<W>(d)) == d }
    open spec fn is(&self, d: Seq<u8>) -> bool { self@ == dec::<W>(d) }
}
#[verifier::external_body]
pub fn deserialize<T: Decode>(d: &[u8]) -> (r: Result<T, ()>) ensures T::valid(d@) ==> r.is_ok() && r->Ok_0.is(d@) { unimplemented!() }

// The network as one party sees it: what it will be handed under an identifier is fixed by the others.
#[verifier::external_body]
pub struct Network { x: u8 }
impl Clone for Network {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Sent { pub to: Recipient, pub id: Seq<u8>, pub data: Seq<u8> }
pub tracked struct Log { pub ghost sent: Seq<Sent> }
// what party i sends here under the identifier for the gathering, and what comes back afterwards
pub uninterp spec fn gather_of(net: Network, id: Seq<u8>, i: int) -> Seq<u8>;
pub uninterp spec fn back_of(net: Network, id: Seq<u8>) -> Seq<u8>;
pub open spec fn gathers<const W: u8>(net: Network, id: Seq<u8>, n: int, num: int) -> bool { forall|i: int| 0 <= i < n ==> encodes::<W>(#[trigger] gather_of(net, id, i), num) }
// the j-th element of everybody's message
pub open spec fn column<const W: u8>(net: Network, id: Seq<u8>, n: int, j: int) -> Seq<GF<W>> { Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id, i))[j]) }
impl Network {
    #[verifier::external_body]
    pub fn send(&self, m: SendMessage, Tracked(log): Tracked<&mut Log>)
        ensures final(log).sent == old(log).sent.push(Sent { to: m.to, id: m.proto_id@, data: m.data@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn recv(&self, id: ProtocolID) -> (r: ReceivedMessage) ensures r.data@ == back_of(*self, id@) { unimplemented!() }
}
pub mod network {
    use super::*;
    #[verifier::external_body]
    pub async fn message_from_each_party(id: ProtocolID, net: &Network, n: usize) -> (r: Vec<Vec<u8>>)
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == gather_of(*net, id@, i)
    { unimplemented!() }
}
