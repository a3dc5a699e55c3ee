// Storing and loading preprocessing material (C05): PreProc <-> PreProcSer in src/protocol/preproc.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include gf.vrs
//@include iter.vrs
//@include nda.vrs
//@include nd3.vrs
//@include vd.vrs
//@note serde's derived Serialize/Deserialize of PreProcSer with bincode store and restore five vectors of elements field by field (elements: property C04); #[serde(from, into)] on PreProc apply the two conversions under contract.
//@item src/sharing.rs | pub type PackedShare<
//@item src/protocol/preproc.rs | pub struct PreProc<
//@item src/protocol/preproc.rs | struct PreProcSer<
spec fn stored<const W: u8>(a: PreProc<W>, s: PreProcSer<W>) -> bool {
    s.masks@ == a.masks@ && s.keys@ =~= a.keys@ && s.randoms@ == a.randoms@ && s.zeros@ == a.zeros@ && s.errors@ == a.errors@
}
// Key tables hold two keys of one length per block, as many blocks as masks.
spec fn shaped<const W: u8>(a: PreProc<W>, k: int) -> bool { a.keys.dims() == (2int, k, a.masks@.len() as int) }
spec fn fits<const W: u8>(s: PreProcSer<W>, k: int) -> bool { 0 <= k && s.keys@.len() == 2 * k * s.masks@.len() }
spec fn loaded<const W: u8>(s: PreProcSer<W>, b: PreProc<W>) -> bool {
    &&& b.masks@ == s.masks@ && b.keys@ == s.keys@ && b.randoms@ == s.randoms@ && b.zeros@ == s.zeros@ && b.errors@ == s.errors@
    &&& forall|k: int| #[trigger] fits(s, k) && s.masks@.len() > 0 ==> shaped(b, k)
}
struct To;
impl To {
//@fn src/protocol/preproc.rs | From<PreProc<W>> for PreProcSer<W> | from
//@head fn from ==> fn from<const W: u8>
//@head Self ==> PreProcSer<W>
//@rewrite \bSelf \{ ==> PreProcSer { # Self outside its impl
//@contract
    ensures stored(value, res)
//@end
}
struct From;
impl From {
//@fn src/protocol/preproc.rs | From<PreProcSer<W>> for PreProc<W> | from
//@head fn from ==> fn from<const W: u8>
//@head Self ==> PreProc<W>
//@rewrite \bSelf \{ ==> PreProc { # Self outside its impl
//@contract
    requires 2 * value.masks@.len() <= usize::MAX, exists|k: int| fits(value, k)
    ensures loaded(value, res)
//@entry
    let ghost (kn, mn) = (value.keys@.len(), value.masks@.len());
//@after let key_len
    proof {
        let k = choose|k: int| fits(value, k);
        if mn > 0 {
            assert forall|k: int| #[trigger] fits(value, k) implies k == key_len by {
                assert(kn == k * (2 * mn)) by (nonlinear_arith) requires kn == 2 * k * mn;
                vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, 2 * mn as int);
            }
        } else {
            assert(2 * k * mn == 0) by (nonlinear_arith) requires mn == 0;
        }
    }
//@end
}
// Saving and loading: same masks, keys, randoms, zeros and errors; same shape of the key table (without blocks it has no elements).
proof fn kept<const W: u8>(a: PreProc<W>, s: PreProcSer<W>, b: PreProc<W>, k: int)
    requires shaped(a, k), stored(a, s), loaded(s, b)
    ensures
        fits(s, k), b.masks@ == a.masks@, b.keys@ == a.keys@, b.randoms@ == a.randoms@, b.zeros@ == a.zeros@, b.errors@ == a.errors@,
        a.masks@.len() > 0 ==> b.keys.dims() == a.keys.dims(),
{
    broadcast use dims3;
    assert(a.keys.dims().1 == k);
    assert(fits(s, k));
}
}
