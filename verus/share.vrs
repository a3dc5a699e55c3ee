// Sharing (C09, C11): src/sharing.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include sh_base.vrs
//@include sh_new.vrs
//@include sh_share.vrs
// C09: the shares lie on a polynomial with np coefficients that takes the secrets at their positions.
pub proof fn made_ok<const W: u8>(pos: Seq<GF<W>>, n: int, np: int, s: Seq<GF<W>>, c: Seq<GF<W>>, f: Seq<GF<W>>) -> (p: Seq<GF<W>>)
    requires fits(pos, n, np), c.len() == np - pos.len(), f.len() == missing(s, pos.len() as int)
    ensures
        p.len() == np, made(pos, n, np, s, c, f) == shares_of(p, n),
        forall|i: int| 0 <= i < pos.len() && i < s.len() ==> ev(p, #[trigger] pos[i]) == s[i],
        forall|i: int| 0 <= i < np - pos.len() ==> #[trigger] shares_of(p, n)[i] == c[i],
{
    let a = allp(pos, n).take(np);
    let y = filled(s, pos.len() as int, f) + c;
    let p = through(a, y);
    cut_distinct(allp(pos, n), 0, np);
    through_at(a, y);
    assert forall|i: int| 0 <= i < pos.len() && i < s.len() implies ev(p, #[trigger] pos[i]) == s[i] by { assert(ev(p, a[i]) == y[i]); }
    assert forall|i: int| 0 <= i < np - pos.len() implies #[trigger] shares_of(p, n)[i] == c[i] by { assert(ev(p, a[pos.len() + i]) == y[pos.len() + i]); }
    p
}
// The positions of a coalition.
pub open spec fn at_places<const W: u8>(t: Seq<int>) -> Seq<GF<W>> { Seq::new(t.len(), |k: int| gf::<W>(t[k] as u32)) }
pub open spec fn places(t: Seq<int>, n: int) -> bool { distinct(t) && forall|k: int| 0 <= k < t.len() ==> 0 <= #[trigger] t[k] < n }
proof fn coalition_distinct<const W: u8>(pos: Seq<GF<W>>, n: int, t: Seq<int>)
    requires distinct(allp(pos, n)), places(t, n)
    ensures distinct(pos + at_places::<W>(t))
{
    let a = allp(pos, n);
    let l = pos.len() as int;
    let s = pos + at_places::<W>(t);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        let u = if i < l { i } else { l + t[i - l] };
        let v = if j < l { j } else { l + t[j - l] };
        assert(a[u] == s[i] && a[v] == s[j]);
        if i >= l && j >= l { assert(t[i - l] != t[j - l]); }
    }
}
// C11: for any secrets and any coalition of np - l parties, the coins and the shares of the coalition determine each other.
// So with uniform coins the shares of the coalition are uniform, whatever the secrets.
pub proof fn hidden_unique<const W: u8>(pos: Seq<GF<W>>, n: int, np: int, s: Seq<GF<W>>, t: Seq<int>, c: Seq<GF<W>>, d: Seq<GF<W>>)
    requires
        fits(pos, n, np), s.len() == pos.len(), c.len() == np - pos.len(), d.len() == np - pos.len(), t.len() == np - pos.len(), places(t, n),
        forall|k: int| 0 <= k < t.len() ==> made(pos, n, np, s, c, seq![])[#[trigger] t[k]] == made(pos, n, np, s, d, seq![])[t[k]],
    ensures c == d
{
    let p = made_ok(pos, n, np, s, c, seq![]);
    let q = made_ok(pos, n, np, s, d, seq![]);
    let a = pos + at_places::<W>(t);
    coalition_distinct(pos, n, t);
    assert forall|i: int| 0 <= i < np implies ev(p, #[trigger] a[i]) == ev(q, a[i]) by {
        if i < pos.len() { assert(ev(p, pos[i]) == s[i]); assert(ev(q, pos[i]) == s[i]); }
        else {
            let k = t[i - pos.len()];
            assert(made(pos, n, np, s, c, seq![])[k] == made(pos, n, np, s, d, seq![])[k]);
            assert(shares_of(p, n)[k] == shares_of(q, n)[k]);
        }
    }
    assert forall|i: int| 0 <= i < c.len() implies c[i] == d[i] by {
        agree(p, q, a, gf::<W>(i as u32));
        assert(shares_of(p, n)[i] == shares_of(q, n)[i]);
    }
    assert(c =~= d);
}
pub proof fn hidden_exists<const W: u8>(pos: Seq<GF<W>>, n: int, np: int, s: Seq<GF<W>>, t: Seq<int>, y: Seq<GF<W>>) -> (c: Seq<GF<W>>)
    requires fits(pos, n, np), s.len() == pos.len(), y.len() == np - pos.len(), t.len() == np - pos.len(), places(t, n)
    ensures c.len() == np - pos.len(), forall|k: int| 0 <= k < t.len() ==> made(pos, n, np, s, c, seq![])[#[trigger] t[k]] == y[k]
{
    let l = pos.len() as int;
    let a = pos + at_places::<W>(t);
    coalition_distinct(pos, n, t);
    let p = exists_poly(a, s + y);
    let c = Seq::new((np - l) as nat, |i: int| ev(p, gf::<W>(i as u32)));
    let q = made_ok(pos, n, np, s, c, seq![]);
    let b = allp(pos, n).take(np);
    cut_distinct(allp(pos, n), 0, np);
    assert forall|i: int| 0 <= i < np implies ev(q, #[trigger] b[i]) == ev(p, b[i]) by {
        if i < l { assert(b[i] == pos[i]); assert(ev(p, a[i]) == (s + y)[i]); }
        else { assert(shares_of(q, n)[i - l] == c[i - l]); }
    }
    assert forall|k: int| 0 <= k < t.len() implies made(pos, n, np, s, c, seq![])[#[trigger] t[k]] == y[k] by {
        agree(q, p, b, gf::<W>(t[k] as u32));
        assert(ev(p, a[l + k]) == (s + y)[l + k]);
    }
    c
}
// Random sharings: any np shares and the coins determine each other.
pub open spec fn rmade<const W: u8>(n: int, np: int, c: Seq<GF<W>>) -> Seq<GF<W>> { shares_of(through(shp::<W>(n).take(np), c), n) }
proof fn rmade_ok<const W: u8>(n: int, np: int, c: Seq<GF<W>>)
    requires distinct(shp::<W>(n)), 0 <= np <= n, c.len() == np
    ensures through(shp::<W>(n).take(np), c).len() == np, forall|i: int| 0 <= i < np ==> #[trigger] rmade(n, np, c)[i] == c[i]
{
    let a = shp::<W>(n).take(np);
    cut_distinct(shp::<W>(n), 0, np);
    through_at(a, c);
    assert forall|i: int| 0 <= i < np implies #[trigger] rmade(n, np, c)[i] == c[i] by { assert(ev(through(a, c), a[i]) == c[i]); }
}
pub proof fn random_unique<const W: u8>(n: int, np: int, t: Seq<int>, c: Seq<GF<W>>, d: Seq<GF<W>>)
    requires
        distinct(shp::<W>(n)), 0 <= np <= n, n <= u32::MAX, c.len() == np, d.len() == np, t.len() == np, places(t, n),
        forall|k: int| 0 <= k < t.len() ==> rmade(n, np, c)[#[trigger] t[k]] == rmade(n, np, d)[t[k]],
    ensures c == d
{
    rmade_ok(n, np, c); rmade_ok(n, np, d);
    let (p, q) = (through(shp::<W>(n).take(np), c), through(shp::<W>(n).take(np), d));
    assert(allp::<W>(seq![], n) =~= shp::<W>(n));
    coalition_distinct::<W>(seq![], n, t);
    assert(seq![] + at_places::<W>(t) =~= at_places::<W>(t));
    assert forall|i: int| 0 <= i < np implies ev(p, #[trigger] at_places::<W>(t)[i]) == ev(q, at_places::<W>(t)[i]) by { assert(rmade(n, np, c)[t[i]] == rmade(n, np, d)[t[i]]); }
    assert forall|i: int| 0 <= i < np implies c[i] == d[i] by {
        agree(p, q, at_places::<W>(t), gf::<W>(i as u32));
        assert(rmade(n, np, c)[i] == rmade(n, np, d)[i]);
    }
    assert(c =~= d);
}
pub proof fn random_exists<const W: u8>(n: int, np: int, t: Seq<int>, y: Seq<GF<W>>) -> (c: Seq<GF<W>>)
    requires distinct(shp::<W>(n)), 0 <= np <= n, n <= u32::MAX, y.len() == np, t.len() == np, places(t, n)
    ensures c.len() == np, forall|k: int| 0 <= k < t.len() ==> rmade(n, np, c)[#[trigger] t[k]] == y[k]
{
    assert(allp::<W>(seq![], n) =~= shp::<W>(n));
    coalition_distinct::<W>(seq![], n, t);
    let a = at_places::<W>(t);
    assert(seq![] + a =~= a);
    let p = exists_poly(a, y);
    let c = Seq::new(np as nat, |i: int| ev(p, gf::<W>(i as u32)));
    rmade_ok(n, np, c);
    let b = shp::<W>(n).take(np);
    let q = through(b, c);
    cut_distinct(shp::<W>(n), 0, np);
    assert forall|i: int| 0 <= i < np implies ev(q, #[trigger] b[i]) == ev(p, b[i]) by { assert(rmade(n, np, c)[i] == c[i]); }
    assert forall|k: int| 0 <= k < t.len() implies rmade(n, np, c)[#[trigger] t[k]] == y[k] by {
        agree(q, p, b, gf::<W>(t[k] as u32));
        assert(ev(p, a[k]) == y[k]);
    }
    c
}
// What the protocols assume of sharing (mpc.vrs), for whatever positions a sharing was made with.
//@spec mpc.vrs | shares_for
//@spec mpc.vrs | sharing
impl<const W: u8> PackedSharing<W> {
    pub closed spec fn n(&self) -> int { self.n as int }
    pub closed spec fn np(&self) -> int { self.np as int }
    pub uninterp spec fn pos(&self) -> Seq<GF<W>>;
    pub closed spec fn inv(&self) -> bool { self.wf(self.pos()) }
//@spec mpc.vrs | ok
//@stub mpc.vrs | - | share
    let r = self.share(secrets, rng, Ghost(self.pos()));
    proof {
        let (pos, n, np) = (self.pos(), self.n as int, self.np as int);
        let (c, f) = choose|c: Seq<GF<W>>, f: Seq<GF<W>>| c.len() == self.np - self.l && f.len() == missing(secrets@, self.l as int) && r@ == #[trigger] made(pos, n, np, secrets@, c, f);
        let p = made_ok(pos, n, np, secrets@, c, f);
        assert(shares_for(p, r@, pos, n, np, secrets@));
    }
    r
//@end
//@stub mpc.vrs | - | rand
    let r = self.rand(rng, Ghost(self.pos()));
    proof {
        let (pos, n, np) = (self.pos(), self.n as int, self.np as int);
        let p = through(shp::<W>(n).take(np), r@.take(np));
        cut_distinct(allp(pos, n), self.l as int, n + self.l);
        assert(allp(pos, n).skip(self.l as int) =~= shp::<W>(n));
        rmade_ok(n, np, r@.take(np));
        assert(shares_for(p, r@, pos, n, np, seq![]));
    }
    r
//@end
}
// What the transformations assume of these functions (trans.vrs).
//@spec trans.vrs | usable
proof fn same_made<const W: u8>(coeffs: Array2<GF<W>>, pos: Seq<GF<W>>, pos2: Seq<GF<W>>, n: int, n2: int, s: Seq<GF<W>>, c: Seq<GF<W>>, f: Seq<GF<W>>)
    requires
        usable(coeffs, pos, n, pos.len() as int), usable(coeffs, pos2, n2, pos.len() as int),
        c.len() == coeffs.cols() - pos.len(), f.len() == missing(s, pos.len() as int),
    ensures n == n2, made(pos, n, coeffs.cols() as int, s, c, f) == made(pos2, n, coeffs.cols() as int, s, c, f)
{
    let (np, l) = (coeffs.cols() as int, pos.len() as int);
    let y = filled(s, l, f) + c;
    let p = made_ok(pos, n, np, s, c, f);
    let q = made_ok(pos2, n, np, s, c, f);
    takes_ev(coeffs, allp(pos, n).take(np), allp(pos, n).skip(np), y);
    takes_ev(coeffs, allp(pos2, n).take(np), allp(pos2, n).skip(np), y);
    let (a, b) = (made(pos, n, np, s, c, f), made(pos2, n, np, s, c, f));
    assert forall|i: int| 0 <= i < n implies a[i] == b[i] by {
        if i < np - l { assert(shares_of(p, n)[i] == c[i]); assert(shares_of(q, n)[i] == c[i]); }
        else {
            assert(allp(pos, n).skip(np)[i - (np - l)] == gf::<W>(i as u32));
            assert(allp(pos2, n).skip(np)[i - (np - l)] == gf::<W>(i as u32));
            assert(coeffs.row_s(i - (np - l)) == coeffs.row_s(i - (np - l)));
        }
    }
    assert(a =~= b);
}
impl<const W: u8> PackedSharing<W> {
//@stub trans.vrs | - | compute_share_coeffs
    Self::compute_share_coeffs(d, n, pos)
//@end
//@stub trans.vrs | - | share_using_coeffs
    let ghost (pos0, n0) = choose|pos: Seq<GF<W>>, n: int| #[trigger] usable(coeffs, pos, n, l as int);
    let r = Self::share_using_coeffs(secrets, coeffs, l, rng, Ghost(pos0), Ghost(n0));
    proof {
        let np = coeffs.cols() as int;
        let (c, f) = choose|c: Seq<GF<W>>, f: Seq<GF<W>>| c.len() == np - l && f.len() == missing(secrets@, l as int) && r@ == #[trigger] made(pos0, n0, np, secrets@, c, f);
        assert forall|pos: Seq<GF<W>>, n: int| #[trigger] usable(coeffs, pos, n, l as int) implies r@.len() == n && sharing(r@, pos, n, np, secrets@) by {
            same_made(coeffs, pos0, pos, n0, n, secrets@, c, f);
            let p = made_ok(pos, n, np, secrets@, c, f);
            assert(shares_for(p, r@, pos, n, np, secrets@));
        }
    }
    r
//@end
}
} // verus!
