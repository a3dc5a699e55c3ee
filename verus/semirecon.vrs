// Reconstruction without the check (C09): semihon_recon, recon_coeffs, compute_recon_coeffs, recon_using_coeffs in src/sharing.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include sh_base.vrs
//@include sh_new.vrs
//@include sh_rec.vrs
// r are the values at pos of the polynomial behind consistent shares.
pub open spec fn reads<const W: u8>(r: Seq<GF<W>>, shares: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool {
    r.len() == pos.len() && forall|p: Seq<GF<W>>, i: int| p.len() == np && shares == #[trigger] shares_of(p, n) && 0 <= i < pos.len() ==> #[trigger] r[i] == ev(p, pos[i])
}
proof fn last_reads<const W: u8>(m: Array2<GF<W>>, q: Seq<GF<W>>, r: Seq<GF<W>>, shares: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int)
    requires
        fits(pos, n, np), shares.len() == n, q.len() >= pos.len(), q.take(pos.len() as int) == pos, takes(m, shp::<W>(n).skip(n - np), q), r.len() == pos.len(),
        forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == dot(m.row_s(i), shares.skip(n - np)),
    ensures reads(r, shares, pos, n, np)
{
    assert(allp(pos, n).skip(pos.len() as int) =~= shp::<W>(n));
    cut_distinct(allp(pos, n), pos.len() as int, n + pos.len());
    agrees_iff(shares, n, np);
    takes_ev(m, shp::<W>(n).skip(n - np), q, shares.skip(n - np));
    assert forall|p: Seq<GF<W>>, i: int| p.len() == np && shares == #[trigger] shares_of(p, n) && 0 <= i < pos.len() implies #[trigger] r[i] == ev(p, pos[i]) by {
        assert(q.take(pos.len() as int)[i] == pos[i]);
        assert(ev(p, pos[i]) == ev(last_poly(shares, n, np), pos[i]));
    }
}
// The secrets behind shares made by share() come back.
pub proof fn round_trip<const W: u8>(r: Seq<GF<W>>, p: Seq<GF<W>>, s: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int)
    requires p.len() == np, s.len() <= pos.len(), forall|i: int| 0 <= i < s.len() ==> ev(p, #[trigger] pos[i]) == s[i], reads(r, shares_of(p, n), pos, n, np)
    ensures r.take(s.len() as int) =~= s
{ assert forall|i: int| 0 <= i < s.len() implies r[i] == s[i] by { assert(ev(p, pos[i]) == s[i]); } }
impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | compute_recon_coeffs
//@contract
    requires fits(pos@, n as int, d + 1), d < u32::MAX
    ensures takes(res, shp::<W>(n as int).skip(n - d - 1), pos@)
//@entry
    proof {
        let (m, a, b, c) = (n + pos@.len(), d + 1, n as int, pos@.len() as int);
        area(m, c, a);
        cut_distinct(allp(pos@, b), m - a, m);
    }
//@before lagrange_coeffs
    proof {
        let b = n as int;
        assert(all_pos@ =~= allp(pos@, b));
        assert(allp(pos@, b).subrange(l + n - np, b + l) =~= shp::<W>(b).skip(b - np));
        assert(allp(pos@, b).subrange(0, l as int) =~= pos@);
    }
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | recon_using_coeffs
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@contract
    requires fits(pos, shares@.len() as int, coeffs.cols() as int), takes(coeffs, shp::<W>(shares@.len() as int).skip(shares@.len() - coeffs.cols()), pos)
    ensures reads(res@, shares@, pos, shares@.len() as int, coeffs.cols() as int)
//@tail
    proof { assert(pos.take(pos.len() as int) =~= pos); last_reads(coeffs, pos, __out@, shares@, pos, shares@.len() as int, coeffs.cols() as int); }
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | semihon_recon
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@args ?debug_assert\w*! ==> () # debug assertions of the precondition
//@contract
    requires self.wf(pos), shares@.len() == self.n
    ensures reads(res@, shares@, pos, self.n as int, self.np as int)
//@entry
    let ghost (n, np, l) = (self.n as int, self.np as int, self.l as int);
    proof { assert(allp(pos, n).skip(l + n - np) =~= shp::<W>(n).skip(n - np)); }
//@tail
    proof {
        let m = self.recon_coeffs;
        let q = allp(pos, n).take(l + n - np);
        assert(q.take(l) =~= pos);
        last_reads(m, q, __out@, shares@, pos, n, np);
    }
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | recon_coeffs
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@contract
    requires self.wf(pos)
    ensures takes(res, shp::<W>(self.n as int).skip(self.n - self.np), pos)
//@tail
    proof {
        let (n, np, l) = (self.n as int, self.np as int, self.l as int);
        assert(allp(pos, n).skip(l + n - np) =~= shp::<W>(n).skip(n - np));
        assert forall|i: int| 0 <= i < l implies allp(pos, n).take(l + n - np)[i] == pos[i] by { }
    }
//@end
}
// What the protocols assume of reconstruction (mpc.vrs, trans.vrs), for whatever positions a sharing was made with.
impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | num_secrets
//@contract
    requires self.l <= u32::MAX
    ensures res == self.l
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | num_parties
//@contract
    requires self.n <= u32::MAX
    ensures res == self.n
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | degree
//@contract
    requires 1 <= self.np <= u32::MAX
    ensures res == self.np - 1
//@end
    pub closed spec fn n(&self) -> int { self.n as int }
    pub closed spec fn np(&self) -> int { self.np as int }
    pub uninterp spec fn pos(&self) -> Seq<GF<W>>;
    pub closed spec fn inv(&self) -> bool { self.wf(self.pos()) }
//@spec mpc.vrs | ok
//@stub mpc.vrs | - | semihon_recon
    self.semihon_recon(shares, Ghost(self.pos()))
//@end
//@stub mpc.vrs | - | recon_coeffs
    self.recon_coeffs(Ghost(self.pos()))
//@end
//@stub mpc.vrs | - | num_secrets
    self.num_secrets()
//@end
//@stub trans.vrs | - | compute_recon_coeffs
    Self::compute_recon_coeffs(d, n, pos)
//@end
}
} // verus!
