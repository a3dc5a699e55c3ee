// Packed sharing: data, positions and the theory shared by the units of C09, C10 and C11.
//@std gf for arr
//@include gf.vrs
//@include iter.vrs
//@include nda.vrs
//@include poly.vrs
//@include coins.vrs
//@item src/sharing.rs | pub type PackedShare<
//@item src/sharing.rs | pub struct PackedSharing<
//@item src/lib.rs | pub enum ProtoErrorKind\b
//@note lagrange_coeffs has the contract proved in unit lagrange (C06); share_pos the one proved in unit positions (C29).

//@include sh_theory.vrs
#[verifier::external_body]
fn lagrange_coeffs<const W: u8>(cpos: &[GF<W>], npos: &[GF<W>]) -> (res: Array2<GF<W>>)
    requires distinct(cpos@), npos@.len() * cpos@.len() <= usize::MAX
    ensures
        res.rows() == npos@.len(), res.cols() == cpos@.len(),
        forall|i: int, j: int| 0 <= i < npos@.len() && 0 <= j < cpos@.len() ==> #[trigger] res.at(i, j) == lag(cpos@, j, npos@[i]),
{ unimplemented!() }

// The matrices of a sharing with secrets at pos.
impl<const W: u8> PackedSharing<W> {
    pub closed spec fn wf(&self, pos: Seq<GF<W>>) -> bool {
        let (n, np, l) = (self.n as int, self.np as int, self.l as int);
        &&& fits(pos, n, np) && l == pos.len() && np >= 1
        &&& takes(self.share_coeffs, allp(pos, n).take(np), allp(pos, n).skip(np))
        &&& takes(self.recon_coeffs, allp(pos, n).skip(l + n - np), allp(pos, n).take(l + n - np))
        &&& takes(self.rand_coeffs, shp::<W>(n).take(np), shp::<W>(n).skip(np))
    }
    #[verifier::external_body]
    fn share_pos(n: u32) -> (res: Vec<GF<W>>) ensures res@ == shp::<W>(n as int) { unimplemented!() }
}
