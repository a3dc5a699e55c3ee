// Encoding of field elements (C04): src/math/galois/mod.rs, all widths 1..=29.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include gf_elem.vrs
//@include gf_const.vrs
// Encoding: the NUM_BYTES low bytes, least significant first.
pub open spec fn byte(v: u32, k: int) -> u8 { if k == 0 { (v & 0xff) as u8 } else if k == 1 { ((v >> 8) & 0xff) as u8 } else if k == 2 { ((v >> 16) & 0xff) as u8 } else { ((v >> 24) & 0xff) as u8 } }
pub open spec fn le(v: u32) -> Seq<u8> { seq![byte(v, 0), byte(v, 1), byte(v, 2), byte(v, 3)] }
pub open spec fn unle(b: Seq<u8>) -> u32 { ((b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)) }
pub open spec fn nb(w: int) -> int { (w + 7) / 8 }
// What NUM_BYTES bytes stand for.
pub open spec fn number(w: int, b: Seq<u8>) -> u32 { unle(Seq::new(4, |k: int| if k < nb(w) { b[k] } else { 0u8 })) }
#[verifier::external_body]
fn to_le(v: u32) -> (r: [u8; 4]) ensures r@ == le(v) { v.to_le_bytes() }
#[verifier::external_body]
fn to_be(v: u32) -> (r: [u8; 4]) ensures r@ == le(v).reverse() { v.to_be_bytes() }
#[verifier::external_body]
fn from_le(b: [u8; 4]) -> (r: u32) ensures r == unle(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
fn from_be(b: [u8; 4]) -> (r: u32) ensures r == unle(b@.reverse()) { u32::from_be_bytes(b) }
pub trait SerializeTuple: Sized {
    type Ok; type Error;
    spec fn size(&self) -> nat;
    spec fn written(&self) -> Seq<u8>;
    spec fn works(&self) -> bool;
    spec fn bytes(r: Self::Ok) -> Seq<u8>;
    fn serialize_element(&mut self, v: &u8) -> (r: Result<(), Self::Error>)
        ensures final(self).size() == old(self).size(), final(self).works() == old(self).works(), old(self).works() ==> r.is_ok(), r.is_ok() ==> final(self).written() == old(self).written().push(*v);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures self.works() && self.written().len() == self.size() ==> r.is_ok(), r.is_ok() ==> Self::bytes(r->Ok_0) == self.written();
}
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeTuple: SerializeTuple<Ok = Self::Ok, Error = Self::Error>;
    spec fn works(&self) -> bool;
    fn serialize_tuple(self, n: usize) -> (r: Result<Self::SerializeTuple, Self::Error>)
        ensures self.works() ==> r.is_ok(), r.is_ok() ==> r->Ok_0.works() == self.works() && r->Ok_0.size() == n && r->Ok_0.written() == Seq::<u8>::empty();
}
pub trait SeqAccess: Sized {
    type Error;
    spec fn rest(&self) -> Seq<u8>;
    spec fn works(&self) -> bool;
    fn next_element(&mut self) -> (r: Result<Option<u8>, Self::Error>)
        ensures old(self).works() ==> r.is_ok() && final(self).works(),
            r.is_ok() ==> (match r->Ok_0 {
                Some(b) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                None => old(self).rest().len() == 0,
            });
    fn wrong(&self) -> Self::Error;
}
// A deserializer asked for a tuple of n bytes hands the visitor the next n bytes it holds (or fewer at its end), which come out of its input.
pub trait Deserializer: Sized {
    type Error;
    spec fn rest(&self) -> Seq<u8>;
    spec fn works(&self) -> bool;
    spec fn asked(&self) -> int;
    fn deserialize_tuple<const W: u8>(self, n: usize, v: GFVisitor<W>) -> (r: Result<GF<W>, Self::Error>)
        requires 1 <= W <= 29
        ensures self.asked() == n,
            r.is_ok() ==> visited(first_bytes(self.rest(), n as int), r->Ok_0),
            self.works() && visitable(W as int, first_bytes(self.rest(), n as int)) ==> r.is_ok();
}
pub open spec fn first_bytes(s: Seq<u8>, n: int) -> Seq<u8> { if n < s.len() { s.take(n) } else { s } }
// The visitor's contract (visit_seq below).
pub open spec fn visited<const W: u8>(s: Seq<u8>, r: GF<W>) -> bool { s.len() >= nb(W as int) && ok(r) && r.0 == number(W as int, s) }
pub open spec fn visitable(w: int, s: Seq<u8>) -> bool { s.len() >= nb(w) && number(w, s) <= nwm1_s(w) }
//@note A serde serializer keeps the tuple elements in order; a serde sequence hands its bytes out in order and reports its end.
impl<const W: u8> GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> Serialize for GF<W>$ | serialize
//@contract
    requires 1 <= W <= 29
    ensures serializer.works() ==> res.is_ok(), res.is_ok() ==> <S::SerializeTuple as SerializeTuple>::bytes(res->Ok_0) == le(self.0).take(nb(W as int)),
//@loop 0
    invariant 1 <= W <= 29, val@ == le(self.0), tup.size() == nb(W as int), tup.works() == serializer.works(), tup.written() =~= le(self.0).take(i as int), num_bytes_is::<W>(),
//@end
}
spec fn num_bytes_is<const W: u8>() -> bool { 1 <= nb(W as int) <= 4 }
pub struct GFVisitor<const W: u8>;
impl<const W: u8> GFVisitor<W> {
//@fn src/math/galois/mod.rs | ^impl<'de, const W: u8> Visitor<'de> for GFVisitor<W>$ | visit_seq
//@attr #[verifier::loop_isolation(false)]
//@head SeqAccess<'de> ==> SeqAccess # shim without the lifetime
//@head Self::Value ==> GF<W> # associated type
//@head serde::de:: ==> <nothing> # shim
//@rewrite \.ok_or_else\(\|\|\s*Error::invalid_length\([^()]*\)\) ==> .ok_or(seq.wrong()) # which error
//@rewrite Error::invalid_value\([^;]*, &self\)\) ==> seq.wrong()) # which error
//@rewrite for \((\w+), (\w+)\) in (\w+)\.iter_mut\(\)\.take\(([\w:<>]+\(\))\)\.enumerate\(\) \{\s*\*(\w+)\s*= ==> for \1 in 0..least(\4, 4) { \3[\1] = # the first elements of the array in turn
//@contract
    requires 1 <= W <= 29
    ensures
        res.is_ok() ==> visited(seq.rest(), res->Ok_0),
        seq.works() && visitable(W as int, seq.rest()) ==> res.is_ok(),
//@entry
    let ghost s0 = seq;
    proof { tables(W as int); }
//@loop 0
    invariant 1 <= W <= 29, s0.works() ==> seq.works(), i <= s0.rest().len(), seq.rest() =~= s0.rest().skip(i as int),
        forall|k: int| 0 <= k < i ==> vals[k] == #[trigger] s0.rest()[k], forall|k: int| i <= k < 4 ==> #[trigger] vals[k] == 0,
        seq.works() && s0.works() || !s0.works(),
//@end
}
impl<const W: u8> GF<W> {
//@fn src/math/galois/mod.rs | ^impl<'de, const W: u8> Deserialize<'de> for GF<W>$ | deserialize
//@head Deserializer<'de> ==> Deserializer # shim without the lifetime
//@contract
    requires 1 <= W <= 29
    ensures
        deserializer.asked() == nb(W as int),
        res.is_ok() ==> visited(first_bytes(deserializer.rest(), nb(W as int)), res->Ok_0),
        deserializer.works() && visitable(W as int, first_bytes(deserializer.rest(), nb(W as int))) ==> res.is_ok(),
//@end
}
fn least(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
// Decoding an encoded element gives the element back.
proof fn round_trip(w: int, v: u32)
    requires 1 <= w <= 29, v <= nwm1_s(w)
    ensures number(w, le(v).take(nb(w))) == v
{
    tables(w);
    let (k, s) = (w as u32, nw_s(w));
    let n = s as u32;
    assert(n == 1u32 << k) by (bit_vector) requires s == 1i32 << k, 1 <= k <= 29, n == s as u32;
    let (b0, b1, b2, b3) = (byte(v, 0), byte(v, 1), byte(v, 2), byte(v, 3));
    let c1 = if 1 < nb(w) { b1 } else { 0u8 };
    let c2 = if 2 < nb(w) { b2 } else { 0u8 };
    let c3 = if 3 < nb(w) { b3 } else { 0u8 };
    let q = Seq::new(4, |k: int| if k < nb(w) { le(v).take(nb(w))[k] } else { 0u8 });
    assert(q[0] == b0 && q[1] == c1 && q[2] == c2 && q[3] == c3);
    assert(v == (b0 as u32) | ((c1 as u32) << 8) | ((c2 as u32) << 16) | ((c3 as u32) << 24)) by (bit_vector)
        requires n == 1u32 << k, 1 <= k <= 29, v < n, b0 == (v & 0xff) as u8,
            b1 == ((v >> 8) & 0xff) as u8, b2 == ((v >> 16) & 0xff) as u8, b3 == ((v >> 24) & 0xff) as u8,
            c1 == (if 8 < k { b1 } else { 0u8 }), c2 == (if 16 < k { b2 } else { 0u8 }), c3 == (if 24 < k { b3 } else { 0u8 });
}
// Lists of elements as bincode writes them: the length in eight bytes, then every element (trusted layout). That decoding
// undoes it is what the protocol units assume (mpc.vrs), copied from there.
//@note bincode writes a list as its length in eight bytes followed by the encodings of its elements, and reads it back in the same way.
mod lists {
use super::*;
verus! {
pub uninterp spec fn length8(n: nat) -> Seq<u8>;
pub open spec fn one<const W: u8>(a: GF<W>) -> Seq<u8> { le(a.0).take(nb(W as int)) }
pub open spec fn flat<const W: u8>(s: Seq<GF<W>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + one(s.last()) } }
pub open spec fn enc<const W: u8>(s: Seq<GF<W>>) -> Seq<u8> { Seq::new(8, |i: int| length8(s.len())[i]) + flat(s) }
pub open spec fn dec<const W: u8>(d: Seq<u8>) -> Seq<GF<W>> {
    Seq::new(((d.len() - 8) / nb(W as int)) as nat, |i: int| GF(number(W as int, d.subrange(8 + i * nb(W as int), 8 + (i + 1) * nb(W as int)))))
}
proof fn flat_at<const W: u8>(s: Seq<GF<W>>, i: int)
    requires 1 <= W <= 29
    ensures flat(s).len() == s.len() * nb(W as int), 0 <= i < s.len() ==> 0 <= i * nb(W as int) <= (i + 1) * nb(W as int) <= flat(s).len() && flat(s).subrange(i * nb(W as int), (i + 1) * nb(W as int)) == one(s[i])
    decreases s.len()
{
    let k = nb(W as int);
    if s.len() > 0 {
        let t = s.drop_last();
        flat_at(t, i);
        assert((s.len() - 1) * k + k == s.len() * k) by (nonlinear_arith);
        assert(one(s.last()).len() == k);
        if i == s.len() - 1 {
            assert(0 <= i * k) by (nonlinear_arith) requires 0 <= i, 1 <= k;
            assert(flat(s).subrange(i * k, (i + 1) * k) =~= one(s[i]));
        } else if 0 <= i < s.len() {
            assert((i + 1) * k <= t.len() * k) by (nonlinear_arith) requires i + 1 <= t.len(), 1 <= k;
            assert(flat(s).subrange(i * k, (i + 1) * k) =~= flat(t).subrange(i * k, (i + 1) * k));
        }
    }
}
//@axiom mpc.vrs | a_dec | 1 <= W <= 29, forall|i: int| 0 <= i < s.len() ==> ok(#[trigger] s[i])
    let k = nb(W as int);
    let d = enc(s);
    flat_at(s, 0);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s.len() as int, k);
    assert(dec::<W>(d).len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] dec::<W>(d)[i] == s[i] by {
        flat_at(s, i);
        assert(d.subrange(8 + i * k, 8 + (i + 1) * k) =~= flat(s).subrange(i * k, (i + 1) * k));
        round_trip(W as int, s[i].0);
        let x = one(s[i]);
        assert(Seq::new(4, |j: int| if j < k { x[j] } else { 0u8 }) =~= Seq::new(4, |j: int| if j < nb(W as int) { le(s[i].0).take(nb(W as int))[j] } else { 0u8 }));
    }
    assert(dec::<W>(d) =~= s);
//@end
}
}
}
