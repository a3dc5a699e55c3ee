// Checked reconstruction (C10; C09 for consistent shares): PackedSharing::recon in src/sharing.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include sh_base.vrs
//@include sh_new.vrs
//@include sh_rec.vrs
impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | recon
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@contract
    requires self.wf(pos)
    ensures
        // secrets exactly for consistent shares, and then those of their polynomial
        res.is_ok() == (shares@.len() == self.n && consistent(shares@, self.n as int, self.np as int)),
        res matches Ok(v) ==> v@.len() == self.l && forall|p: Seq<GF<W>>| p.len() == self.np && shares@ == #[trigger] shares_of(p, self.n as int)
            ==> forall|i: int| 0 <= i < self.l ==> #[trigger] v@[i] == ev(p, pos[i]),
        res matches Err(e) ==> (shares@.len() == self.n ==> e == ProtoErrorKind::MaliciousBehavior),
//@entry
    let ghost (n, np, l) = (self.n as int, self.np as int, self.l as int);
    proof {
        assert(allp(pos, n).skip(l) =~= shp::<W>(n));
        cut_distinct(allp(pos, n), l, n + l);
        assert(allp(pos, n).skip(l + n - np) =~= shp::<W>(n).skip(n - np));
        if shares@.len() == n {
            agrees_iff(shares@, n, np);
            takes_ev(self.recon_coeffs, shp::<W>(n).skip(n - np), allp(pos, n).take(l + n - np), shares@.skip(n - np));
        }
    }
//@loop 0
    invariant
        shares@.len() == n, n == self.n, np == self.np, l == self.l, self.wf(pos),
        agrees(shares@, n, np) == consistent(shares@, n, np),
        recon_vals@.len() == l + n - np,
        forall|i: int| 0 <= i < l + n - np ==> #[trigger] recon_vals@[i] == ev(last_poly(shares@, n, np), allp(pos, n)[i]),
        __s0@.len() == n - np, forall|k: int| 0 <= k < n - np ==> #[trigger] __s0@[k] == (k as usize, &recon_vals@[l + k]),
        forall|i: int| 0 <= i < __k0 ==> #[trigger] shares@[i] == ev(last_poly(shares@, n, np), gf::<W>(i as u32)),
//@loopstart 0
    proof {
        assert(allp(pos, n)[l + __k0] == gf::<W>(__k0 as u32));
        assert(recon_vals@[l + __k0] == ev(last_poly(shares@, n, np), allp(pos, n)[l + __k0]));
    }
//@before Ok\(
    proof {
        assert(agrees(shares@, n, np));
        assert(recon_vals@.subrange(0, l).len() == l);
    }
//@end
}
}
