// Positions (C29): src/sharing.rs
use vstd::prelude::*;
verus! {
//@std gf
//@include gf.vrs
//@include iter.vrs
//@note n + l and every wire number plus n + l stay below 2^32 (the property's range: wires below 2^w - n - l).
//@item src/circuit.rs | type WireID\b
pub struct PackedSharing<const W: u8> { }
impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | default_pos
//@contract
    requires n + l <= u32::MAX
    ensures res@.len() == l, forall|i: int| 0 <= i < l ==> #[trigger] res@[i] == gf::<W>((n + i) as u32)
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | share_pos
//@contract
    ensures res@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] res@[i] == gf::<W>(i as u32)
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | wire_to_pos
//@head wire_to_pos<'a, I> ==> wire_to_pos<I> # iterators as eager sequences
//@head impl Iterator<Item = GF<W>>(\s*\+\s*'a)? ==> It<GF<W>> # iterators as eager sequences
//@head I:\s*IntoIterator<Item = WireID>(\s*\+\s*'a)? ==> I: IntoIt<u32> # iterators as eager sequences
//@contract
    requires n + l <= u32::MAX, forall|i: int| 0 <= i < iter.items().len() ==> #[trigger] iter.items()[i] + n + l <= u32::MAX
    ensures res@.len() == iter.items().len(), forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == gf::<W>((iter.items()[i] + n + l) as u32)
//@closure 0
    |x: u32| -> (r: GF<W>) requires x + offset <= u32::MAX ensures r == gf::<W>((x + offset) as u32)
//@end
}
// All positions are pairwise distinct.
proof fn apart<const W: u8>(n: u32, l: u32)
    requires W <= 31, n + l <= pow2w(W)
    ensures
        forall|i: u32, j: u32| i < n + l && j < n + l && i != j ==> #[trigger] gf::<W>(i) != #[trigger] gf::<W>(j),
        forall|i: u32, w: u32| i < n + l && w + n + l < pow2w(W) ==> #[trigger] gf::<W>(i) != #[trigger] gf::<W>((w + n + l) as u32),
        forall|v: u32, w: u32| v != w && v + n + l < pow2w(W) && w + n + l < pow2w(W) ==> #[trigger] gf::<W>((v + n + l) as u32) != #[trigger] gf::<W>((w + n + l) as u32),
{
    if W < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(W as nat, 31); }
    vstd::arithmetic::power2::lemma2_to64();
    assert forall|i: u32, j: u32| #![trigger gf::<W>(i), gf::<W>(j)] i < pow2w(W) && j < pow2w(W) && i != j implies gf::<W>(i) != gf::<W>(j) by { a_gf::<W>(i); a_gf::<W>(j); }
}
proof fn lists<const W: u8>(n: u32, l: u32, sh: Seq<GF<W>>, de: Seq<GF<W>>, wires: Seq<u32>, wp: Seq<GF<W>>)
    requires
        W <= 31, n + l <= pow2w(W),
        sh.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] sh[i] == gf::<W>(i as u32),
        de.len() == l, forall|i: int| 0 <= i < l ==> #[trigger] de[i] == gf::<W>((n + i) as u32),
        wp.len() == wires.len(), forall|i: int| 0 <= i < wp.len() ==> #[trigger] wp[i] == gf::<W>((wires[i] + n + l) as u32),
        forall|i: int| 0 <= i < wp.len() ==> wires[i] < pow2w(W) - n - l,
    ensures
        (sh + de).no_duplicates(),
        forall|i: int, k: int| 0 <= i < n + l && 0 <= k < wp.len() ==> (sh + de)[i] != wp[k],
        forall|i: int, k: int| 0 <= i < wp.len() && 0 <= k < wp.len() ==> (wp[i] == wp[k]) == (wires[i] == wires[k]),
{
    apart::<W>(n, l);
    if W < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(W as nat, 31); }
    vstd::arithmetic::power2::lemma2_to64();
    let a = sh + de;
    assert forall|i: int| 0 <= i < n + l implies #[trigger] a[i] == gf::<W>(i as u32) by {}
}
// What other units assume of positions.
//@spec sh_theory.vrs | shp
//@spec mpc.vrs | defpos
//@spec wires.vrs | inrange
//@spec wires.vrs | posw
impl<const W: u8> PackedSharing<W> {
//@stub sh_base.vrs | - | share_pos
    let r = Self::share_pos(n);
    proof { assert(r@ =~= shp::<W>(n as int)); }
    r
//@end
//@stub posns.vrs | - | share_pos
    let r = Self::share_pos(n);
    proof { assert(r@ =~= shp::<W>(n as int)); }
    r
//@end
//@stub posns.vrs | - | default_pos
    let r = Self::default_pos(n, l);
    proof { assert(r@ =~= defpos::<W>(n as int, l as int)); }
    r
//@end
//@stub wires.vrs | - | wire_to_pos
    let r = Self::wire_to_pos(n, l, iter);
    proof { assert(r@ =~= posw::<W>(iter.items(), n as int, l as int)); }
    r
//@end
}
} // verus!
