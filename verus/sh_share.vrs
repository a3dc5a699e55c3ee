// Drawing shares: compute_share_coeffs, share_using_coeffs, share, rand.
pub open spec fn filled<const W: u8>(s: Seq<GF<W>>, l: int, f: Seq<GF<W>>) -> Seq<GF<W>> { if s.len() >= l { s.take(l) } else { s + f } }
pub open spec fn missing<T>(s: Seq<T>, l: int) -> int { if s.len() >= l { 0 } else { l - s.len() } }
// The shares made from secrets s (completed by f) and the drawn values c: the polynomial through the secrets and the first np - l shares c.
pub open spec fn made<const W: u8>(pos: Seq<GF<W>>, n: int, np: int, s: Seq<GF<W>>, c: Seq<GF<W>>, f: Seq<GF<W>>) -> Seq<GF<W>> {
    shares_of(through(allp(pos, n).take(np), filled(s, pos.len() as int, f) + c), n)
}
impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | compute_share_coeffs
//@contract
    requires fits(pos@, n as int, d + 1), d < u32::MAX
    ensures takes(res, allp(pos@, n as int).take(d + 1), allp(pos@, n as int).skip(d + 1))
//@entry
    proof {
        let (m, a, b) = (n + pos@.len(), d + 1, n as int);
        area(m, m - a, a);
        cut_distinct(allp(pos@, b), 0, a);
    }
//@before lagrange_coeffs
    proof { assert(all_pos@ =~= allp(pos@, n as int)); }
//@tail
    proof {
        let (b, np) = (n as int, d + 1);
        assert(allp(pos@, b).subrange(0, np) =~= allp(pos@, b).take(np));
        assert(allp(pos@, b).subrange(np, b + pos@.len()) =~= allp(pos@, b).skip(np));
    }
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | share_using_coeffs
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>, Ghost(n): Ghost<int>
//@contract
    requires fits(pos, n, coeffs.cols() as int), l == pos.len(), takes(coeffs, allp(pos, n).take(coeffs.cols() as int), allp(pos, n).skip(coeffs.cols() as int))
    ensures
        res@.len() == n,
        exists|c: Seq<GF<W>>, f: Seq<GF<W>>| c.len() == coeffs.cols() - l && f.len() == missing(secrets@, l as int)
            && final(rng).log::<W>() == old(rng).log::<W>() + c + f && res@ == #[trigger] made(pos, n, coeffs.cols() as int, secrets@, c, f),
//@entry
    let ghost np0 = coeffs.cols() as int;
    let ghost log0 = rng.log::<W>();
//@after let mut shares
    let ghost c = vals(shares);
//@before shares\.ext\(
    let ghost (ll, pts) = (pos.len() as int, vals(points));
    let ghost f = if secrets@.len() >= ll { Seq::<GF<W>>::empty() } else { pts.subrange(secrets@.len() as int, ll) };
    proof {
        assert(pts =~= filled(secrets@, ll, f) + c);
        assert(rng.log::<W>() =~= log0 + c + f);
        takes_ev(coeffs, allp(pos, n).take(np0), allp(pos, n).skip(np0), pts);
        cut_distinct(allp(pos, n), 0, np0);
        through_at(allp(pos, n).take(np0), pts);
    }
//@tail
    proof {
        let m = made(pos, n, np0, secrets@, c, f);
        let p = through(allp(pos, n).take(np0), pts);
        assert forall|i: int| 0 <= i < n implies #[trigger] __out@[i] == m[i] by {
            if i < np0 - ll {
                assert(allp(pos, n).take(np0)[ll + i] == gf::<W>(i as u32));
                assert(ev(p, allp(pos, n).take(np0)[ll + i]) == pts[ll + i]);
            } else {
                assert(allp(pos, n).skip(np0)[i - (np0 - ll)] == gf::<W>(i as u32));
            }
        }
        assert(__out@ =~= m);
    }
//@closures 0
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | share
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@rewrite rng,?\s*\)\s*$ ==> rng, Ghost(pos), Ghost(self.n as int)) # ghost arguments
//@contract
    requires self.wf(pos)
    ensures
        res@.len() == self.n,
        exists|c: Seq<GF<W>>, f: Seq<GF<W>>| c.len() == self.np - self.l && f.len() == missing(secrets@, self.l as int)
            && final(rng).log::<W>() == old(rng).log::<W>() + c + f && res@ == #[trigger] made(pos, self.n as int, self.np as int, secrets@, c, f),
//@end
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | rand
//@ghost Ghost(pos): Ghost<Seq<GF<W>>>
//@contract
    requires self.wf(pos)
    ensures
        res@.len() == self.n, res@.take(self.np as int).len() == self.np, final(rng).log::<W>() == old(rng).log::<W>() + res@.take(self.np as int),
        res@ == shares_of(through(shp::<W>(self.n as int).take(self.np as int), res@.take(self.np as int)), self.n as int),
//@entry
    let ghost (n, np, l) = (self.n as int, self.np as int, self.l as int);
    let ghost log0 = rng.log::<W>();
//@before shares\.ext\(
    let ghost c = vals(shares);
    proof {
        takes_ev(self.rand_coeffs, shp::<W>(n).take(np), shp::<W>(n).skip(np), c);
        assert(allp(pos, n).skip(l) =~= shp::<W>(n));
        cut_distinct(allp(pos, n), l, n + l);
        cut_distinct(shp::<W>(n), 0, np);
        through_at(shp::<W>(n).take(np), c);
    }
//@tail
    proof {
        assert(__out@.take(np) =~= c);
        let m = shares_of(through(shp::<W>(n).take(np), c), n);
        assert forall|i: int| 0 <= i < n implies #[trigger] __out@[i] == m[i] by {
            if i < np { assert(ev(through(shp::<W>(n).take(np), c), shp::<W>(n).take(np)[i]) == c[i]); }
            else { assert(shp::<W>(n).skip(np)[i - np] == gf::<W>(i as u32)); }
        }
        assert(__out@ =~= m);
    }
//@end
}
