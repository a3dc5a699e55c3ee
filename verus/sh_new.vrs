impl<const W: u8> PackedSharing<W> {
//@fn src/sharing.rs | ^impl<const W: u8> PackedSharing<W>$ | new
//@args ?debug_assert\w*! ==> () # debug assertions of the precondition
//@contract
    requires fits(pos@, n as int, d + 1), d < u32::MAX
    ensures res.wf(pos@), res.n == n, res.np == d + 1, res.l == pos@.len()
//@entry
    proof {
        let (m, a, b) = (n + pos@.len(), d + 1, n as int);
        area(m, a, m - a); area(m, m - a, a); area(m, b - a, a);
        cut_distinct(allp(pos@, b), 0, a);
        cut_distinct(allp(pos@, b), m - a, m);
        assert(shp::<W>(b) =~= allp(pos@, b).skip(pos@.len() as int));
        cut_distinct(allp(pos@, b), pos@.len() as int, m);
        cut_distinct(shp::<W>(b), 0, a);
    }
//@before let share_coeffs
    proof { assert(vals(all_pos) =~= allp(pos@, n as int)); assert(vals(sh_pos) == shp::<W>(n as int)); }
//@tail
    proof {
        let b = n as int;
        assert(allp(pos@, b).subrange(0, np as int) =~= allp(pos@, b).take(np as int));
        assert(allp(pos@, b).subrange(np as int, b + l) =~= allp(pos@, b).skip(np as int));
        assert(allp(pos@, b).subrange(l + n - np, b + l) =~= allp(pos@, b).skip(l + n - np));
        assert(allp(pos@, b).subrange(0, l + n - np) =~= allp(pos@, b).take(l + n - np));
        assert(shp::<W>(b).subrange(0, np as int) =~= shp::<W>(b).take(np as int));
        assert(shp::<W>(b).subrange(np as int, b) =~= shp::<W>(b).skip(np as int));
    }
//@closures 0
//@end
}
spec fn vals<const W: u8>(v: Vec<GF<W>>) -> Seq<GF<W>> { v@ }
